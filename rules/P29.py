"""What the interactive tools show."""
WHAT = ("value-flow summaries of the command line tools and of the display functions, printed values included, compared with "
        "specification summaries on all paths; options leave the values the program takes them for")

AG = {"ignore": ["add_argument", "ArgumentParser"]}
FL = {"pure": ["add_argument", "Path", "pathlib.Path"], "prints": True}


def check(ctx):
  ctx.options("CPS", "CTL1", "CTL2", "CTL3", "CTL4", "Direct_Simulator", "LNF", "Lin_Recur_Detect", "Permute", "Quick_Sim", "TM_Print", "TNF", "Visual_Simulator", "Macro_Simulator", "Macro.Simulator", "Macro.Proof_System", "Macro.Turing_Machine", "Macro.Block_Finder")
  for rule, mod, f in (
      ("tool", "Direct_Simulator", "show_direct.py"), ("tool", "Lin_Recur_Detect", "show_linrecur.py"),
      ("tool", "CTL1", "show_ctl.py"), ("tool", "CTL2", "show_ctl.py"), ("tool", "CTL3", "show_ctl.py"), ("tool", "CTL4", "show_ctl.py"),
      ("tool", "CPS", "show_cps.py"), ("tool", "TNF", "show_tnf.py"), ("tool", "LNF", "show_lnf.py"), ("tool", "Permute", "show_permute.py"),
      ("tool", "TM_Print", "show_tmprint.py"), ("tool", "IO_CGA_to_Morphett", "show_cga.py"), ("tool", "Quick_Sim", "show_quick.py"),
      ("tool", "Visual_Simulator", "show_visual.py"),
      ("display", "Macro.Simulator", "show_sim.py"), ("display", "Halting_Lib", "show_big.py"), ("display", "Exp_Int", "show_exp.py"),
      ("display", "Macro.Tape", "show_tape.py"), ("display", "Macro.Turing_Machine", "show_tm.py")):
    ctx.specfile(rule, mod, f, agree=AG, flow=FL)
