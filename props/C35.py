TECHNIQUE = "symbolic execution of the real trigger manager and priority queue (LLVM IR), SMT-decided over times and periods"
LEVEL_NOTE = "Every order of registrations, removals (also by the trigger itself) and progress calls with every elapsed time; rounding of arbitrary times decided separately in IEEE arithmetic."
HARNESSES = [dict(name="history", src=["C35_trig.cc", "unit_stubs.cc"], repo=["src/vt/timetrigger/time_trigger_manager.cc"], covers=["add", "fired", "remove", "time stands still"], max_steps=3000000, replay_timeout=10,
   defs=dict(quick=["-DSTEPS=2", "-DPERIODS=2", "-DUNIT=128", "-DMASK=15"], thorough=["-DSTEPS=4", "-DPERIODS=4"]), what="TimeTriggerManager, Trigger", bounds=dict(quick="up to 2 triggers, 2 further steps; times in 1/128 s, steps up to 15/128 s, periods 0, 20 ms", thorough="up to 2 triggers, 4 further steps, times in 1/1024 s, steps up to 255/1024 s, also periods 125 and 1000 ms")),
  dict(name="rounding", src=["C35_trig.cc", "unit_stubs.cc"], repo=["src/vt/timetrigger/time_trigger_manager.cc"], flags=["-DROUNDING", "-DPERIODS=1"], covers=["once"], max_steps=300000, replay_timeout=10, what="TimeTriggerManager::triggerReady, any binary64 times", bounds="one trigger of period 0 or 1 ms, times in [0, 1e6] s")]
