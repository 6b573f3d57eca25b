"""Records keep the machine: the packed form, the list form and the record
wrapper are compared with their specification, path by path."""
from sa.flow import Flow
from sa.terms import *

WHAT = ("value-flow summaries of the record encoder, decoder and wrapper compared with specification "
        "summaries (all paths); capacity guard of the packed form; encoders write nothing but their output")

CODEC = '''
from Macro import Turing_Machine

def pack_trans_ints(symbol, dir, state, is_newrow):
  # 3 bits symbol + 1, 3 bits state + 1, 1 bit direction, 1 bit row start
  if dir not in [0, 1]:
    dir = 0
  assert -1 <= symbol < 7
  assert -1 <= state < 7
  assert dir in [0, 1]
  code = (symbol + 1) | ((state + 1) << 3) | (dir << 6) | (is_newrow << 7)
  assert 0 <= code < 256
  return code

def unpack_trans_ints(byte_int):
  return ((byte_int & 0b111) - 1, (byte_int >> 6) & 0b1,
          ((byte_int >> 3) & 0b111) - 1, bool((byte_int >> 7) & 0b1))

def pack_trans(trans, is_newrow):
  if trans.condition == Turing_Machine.UNDEFINED:
    return pack_trans_ints(-1, 0, -1, is_newrow)
  return pack_trans_ints(trans.symbol_out, trans.dir_out, trans.state_out, is_newrow)

def unpack_tm(pack):
  quints = []
  state_in = -1
  for byte in pack:
    (symbol, dir, state, is_newrow) = unpack_trans_ints(byte)
    if is_newrow:
      state_in += 1
      symbol_in = 0
    if symbol >= 0:
      quints.append((state_in, symbol_in, symbol, dir, state))
    symbol_in += 1
  return Turing_Machine.tm_from_quintuples(quints, list(range(state_in + 1)), list(range(symbol_in)))

def pack_tm(tm):
  pack = bytearray(tm.num_states * tm.num_symbols)
  i = 0
  for row in tm.trans_table:
    first = True
    for trans in row:
      pack[i] = pack_trans(trans, first)
      first = False
      i += 1
  return bytes(pack)

def tm_to_list(tm, tm_list):
  tm_list.num_states = tm.num_states
  tm_list.num_symbols = tm.num_symbols
  for state in range(tm.num_states):
    for symbol in range(tm.num_symbols):
      trans = tm.get_trans_object(symbol, state)
      if trans.condition == Turing_Machine.UNDEFINED:
        tm_list.ttable_list.append(-1)
      else:
        tm_list.ttable_list.append(trans.symbol_out)
      tm_list.ttable_list.append(trans.dir_out)
      tm_list.ttable_list.append(trans.state_out)

def tm_from_list(tm_list):
  quints = []
  i = 0
  for state_in in range(tm_list.num_states):
    for symbol_in in range(tm_list.num_symbols):
      symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
      i += 3
      if symbol_out != -1:
        quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
  return Turing_Machine.tm_from_quintuples(quints, list(range(tm_list.num_states)),
                                           list(range(tm_list.num_symbols)))

def read_tm(proto_tm):
  type = proto_tm.WhichOneof("ttable")
  if type == "ttable_packed":
    return unpack_tm(proto_tm.ttable_packed)
  elif type == "ttable_str":
    return parse_tm(proto_tm.ttable_str)
  elif type == "ttable_list":
    return tm_from_list(proto_tm.ttable_list)
  else:
    raise NotImplementedError()
'''

WRAP = '''
import TM_Enum
import io_pb2

class TM_Record:
  def __init__(self, *, proto=None, tm_enum=None):
    if proto:
      self.proto = proto
    else:
      self.proto = io_pb2.TMRecord()
    if tm_enum:
      self.update_tm(tm_enum)
    else:
      self.tme = None

  def update_tm(self, tm_enum):
    self.tme = tm_enum
    self.proto.tm.Clear()
    write_tm(self.tme.tm, self.proto.tm)
    self.proto.tm.allow_no_halt = self.tme.allow_no_halt

  def tm_enum(self):
    if not self.tme:
      self.tme = TM_Enum.TM_Enum(read_tm(self.proto.tm), allow_no_halt = self.proto.tm.allow_no_halt)
    return self.tme

  def tm(self):
    return self.tm_enum().tm

  def clear_proto(self):
    for field in "status", "filter", "elapsed_time_us":
      self.proto.ClearField(field)

  def standardize_halt_trans(self):
    assert self.is_halting()
    tm_enum = self.tm_enum()
    tm_enum.set_halt_trans(
      state_in = self.proto.status.halt_status.from_state,
      symbol_in = self.proto.status.halt_status.from_symbol)
    self.update_tm(tm_enum)
'''

PURE = ["get_trans_object", "pack_trans_ints", "unpack_trans_ints", "pack_trans", "tm_from_quintuples",
        "is_halting", "unpack_tm", "parse_tm", "tm_from_list", "pack_tm"]


def check(ctx):
  ctx.spec("codec", "IO.TM_Record", CODEC, flow={"pure": PURE}, minimum=8)
  ctx.spec("record", "IO.TM_Record", WRAP, flow={"pure": PURE}, minimum=6)
  # capacity
  f = ctx.prog.func("IO.TM_Record:write_tm")
  ctx.saw(f)
  ps = [p for p in Flow(ctx.prog, pure=PURE).analyse(f) if p.kind == "return"]
  tm, out = [("sym", x) for x in f.params()[:2]]
  for p in ps:
    packed = p.calls("pack_tm")
    listed = p.calls("tm_to_list")
    ctx.check("one-form", len(packed) + len(listed) == 1, f.loc(), f.qual,
              "write_tm writes %d packed and %d list forms on a path" % (len(packed), len(listed)), [p.show()])
    for e in packed:
      for a in ("num_states", "num_symbols"):
        lo, hi, ne = p.st._bnd(("attr", tm, a))
        ctx.check("capacity", hi is not None and hi <= 7, f.loc(e.node), f.qual + " " + a,
                  "packed form used without a bound of 7 on %s: 3 bits hold the value + 1" % a, [p.show()])
      ctx.check("target", e.args[:1] == (tm,) and p.st.heap.get((out, "ttable_packed")) == e.value, f.loc(e.node), f.qual,
                "the packed table of the machine is not stored in the record", [p.show()])
    for e in listed:
      ctx.check("target", [strip(x) for x in e.args[:2]] == [tm, ("attr", out, "ttable_list")], f.loc(e.node), f.qual,
                "the transition list of the machine is not stored in the record", [p.show()])
  ctx.need("one-form", 2)
  ctx.need("capacity", 2)
