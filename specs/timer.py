def run_timer(tm_record, options, time_limit_sec):
  try:
    start_time = time.time()
    Alarm.ALARM.set_alarm(time_limit_sec)
    run_options(tm_record, options)
    Alarm.ALARM.cancel_alarm()
  except Alarm.AlarmException:
    Alarm.ALARM.cancel_alarm()
    tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = time.time() - start_time
  finally:
    Alarm.ALARM.cancel_alarm()

