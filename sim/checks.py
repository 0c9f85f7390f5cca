"""All checks by property."""
import stream_checks, process_checks, system_checks, world_checks, checker_checks, gc_checks, repro_checks, write_checks, read_checks, limit_checks, memory_checks, builtin_checks, select_checks, core_checks

ALL = {}
for mod in (stream_checks, process_checks, system_checks, world_checks, checker_checks, gc_checks, repro_checks, write_checks, read_checks, limit_checks, memory_checks, builtin_checks, select_checks, core_checks):
    for v in vars(mod).values():
        if isinstance(v, type) and getattr(v, "id", "P00") != "P00" and v.__module__ == mod.__name__:
            ALL[v.id] = v
ALL = dict(sorted(ALL.items()))
