class Alarm:
  def __init__(self):
    self.is_alarm_on = False

  def set_alarm(self, time):
    self.is_alarm_on = True
    signal.setitimer(signal.ITIMER_REAL, time)

  def cancel_alarm(self):
    self.is_alarm_on = False
    signal.setitimer(signal.ITIMER_REAL, 0.0)

  def alarm_handler(self, signum, frame):
    if self.is_alarm_on:
      raise AlarmException('Timeout!')

