"""Harmless looks at a paused simulation."""


def observer_calls(w, op):
    import openclsim.model as model
    from openclsim.plot import get_log_dataframe

    kind = op["observe"]
    env = w.env
    everything = list(w.acts.values()) + list(w.objs.values())
    if kind == "frames":
        for x in everything:
            if x.log["Timestamp"]:
                get_log_dataframe(x, list(w.acts.values()))
    elif kind == "levels":
        for o in w.objs.values():
            c = getattr(o, "container", None)
            if c is not None:
                for k in c.container_list:
                    c.get_level(k)
                    c.get_level(k + "_reservations")
                    c.get_capacity(k)
    elif kind == "state":
        for o in w.objs.values():
            if hasattr(o, "get_state"):
                o.get_state()
            for name in ("v", "current_speed"):
                if hasattr(type(o), name):
                    getattr(o, name)
        for a in w.top:
            a.main_process.is_alive, a.log, a.env.now
    elif kind == "flat":
        model.get_subprocesses(list(w.top))
    elif kind == "logs":
        for x in everything:
            x.log
    elif kind == "gantt":
        import openclsim.plot as plot

        some = [x for x in everything if x.log["Timestamp"]]
        if some:
            plot.get_gantt_chart(some, static=True)
    elif kind == "recorded":
        from openclsim.critical_path.dependencies_from_recorded_activities import (
            DependenciesFromRecordedActivities,
        )

        if any(a.log["Timestamp"] for a in w.acts.values()):
            cp = DependenciesFromRecordedActivities(
                env=env, object_list=list(w.objs.values()), activity_list=list(w.top)
            )
            cp.get_recorded_activity_df()
            cp.get_dependency_list()
