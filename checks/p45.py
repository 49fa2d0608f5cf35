import trace_common as tc
W = ["syscall", "read", "ioctl", "prctl", "stat", "access", "uname"]
def check(ctx):
    th = ctx.thorough
    ctx.model("performance counter design", "PerfModel", "SPECIFICATION Spec\nINVARIANT AllFit\nINVARIANT Once\nINVARIANT Complete\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\nCONSTANTS Evs = %d MaxHw = 3 MaxTicks = %d\n" % ((6, 5) if th else (5, 4)), ["perf"], heap="6g")
    tc.build(ctx, "perf", ["perf/perf.cc"], flags=("-O1", "-DNDEBUG", "-U_FORTIFY_SOURCE"), lib=["abort.cc", "print.cc", "per_target.cc", "targets.cc", "aligned_allocator.cc"], repo=["perf_counters.cc"], link=["-Wl," + ",".join("--wrap=" + w for w in W)])
    lines = tc.run(ctx, "perf", [[p] for p in range(8)])
    tc.validate(ctx, "PerfTrace", lines, ["perf"])
    ctx.assumptions += ["The kernel is simulated (perf_event_open, read, ioctl, prctl, stat, uname); fewer than ten interruptions in a row, as the code assumes.",
                        "Enabled and running times are the kernel's totals since the event was opened (resetting a counter does not reset them)."]
