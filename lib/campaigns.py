"""Which script families exercise which property.

primary: a rejected behaviour of one of these families counts against the property
whatever the specification blames; secondary: it counts if the specification blames
this property. Numbers: scripts in the quick tier; the thorough tier takes rounds of
four times as many with new seeds until its time is used."""

C = {
    "P01": (["sess"], {"sess": 500, "close": 60, "param": 40, "badst": 60, "mix": 60}),
    "P02": (["seg"], {"seg": 500, "upload": 60, "sess": 80, "resp": 40, "mix": 60}),
    "P03": (["badst", "late"], {"badst": 500, "late": 3, "resp": 80, "sess": 80, "hostile": 80, "mix": 60}),
    "P04": (["req"], {"req": 500, "param": 50, "upload": 50, "dpi": 50, "ident": 30, "close": 30, "fo": 30, "mix": 60}),
    "P05": (["resp"], {"resp": 600, "hostile": 120, "seg": 60, "mix": 60}),
    "P06": (["hostile", "fuzzdec"], {"hostile": 500, "fuzzdec": 200, "garbage": 60, "codec": 60, "buffer": 60,
                                     "reentry": 40, "upload": 40, "param": 40, "dpi": 40, "disc": 40, "fo": 40, "mix": 60}),
    "P07": (["fo", "foburn"], {"fo": 450, "foburn": 6, "close": 80, "route": 40, "mix": 60}),
    "P08": (["route"], {"route": 450, "reentry": 80, "garbage": 80, "watchdog": 40, "mix": 60}),
    "P09": (["fixsize"], {"fixsize": 450, "produce": 80, "route": 80, "mix": 60}),
    "P10": (["watchdog"], {"watchdog": 450, "reentry": 80, "close": 60, "produce": 40, "mix": 60}),
    "P11": (["produce", "seqwrap"], {"produce": 450, "seqwrap": 6, "fixsize": 80, "watchdog": 60, "reentry": 60, "mix": 60}),
    "P12": (["garbage"], {"garbage": 450, "route": 100, "watchdog": 60, "mix": 60}),
    "P13": (["close", "reentry"], {"close": 300, "reentry": 300, "watchdog": 60, "mix": 60}),
    "P14": (["upload"], {"upload": 500, "filestate": 40, "mix": 60}),
    "P15": (["filestate"], {"filestate": 500, "upload": 60, "mix": 60}),
    "P16": (["param"], {"param": 500, "scale": 40, "mix": 60}),
    "P17": (["ident"], {"ident": 500}),
    "P18": (["scale"], {"scale": 500, "param": 100}),
    "P19": (["disc"], {"disc": 600, "mix": 60}),
    "P20": (["dpi"], {"dpi": 500, "mix": 60}),
    "P21": (["buffer"], {"buffer": 600, "codec": 60}),
    "P22": (["codec"], {"codec": 700, "fuzzdec": 100}),
    "P23": (["logger"], {"logger": 500}),
    "P24": (["sockets"], {"sockets": 400, "sess": 60, "seg": 40, "disc": 60, "close": 40, "hostile": 40, "plain": 60, "mix": 60}),
    "P25": (["plain"], {"plain": 600}),
    "P26": (["signal"], {"signal": 800}),
    "P27": (["loud"], {"loud": 900}),
}

# families that only the thorough tier runs (slow): property -> scripts per round
THOROUGH = {
    "P07": {"foburn": 20},
    "P11": {"seqwrap": 30},
}

# Models of the environment, explored by TLC. model: the module and its base configuration;
# set, quick, thorough: values of its constants; limit: how many of the behaviours that the
# exploration prints are run by the code (a sample that depends on the seed).


def prog(cases, quick=600):
    """every program of the objects against every sequence of answers"""
    c = "{%s}" % ", ".join('"%s"' % x for x in cases)
    return {"model": "ProgModel", "set": {"Cases": c, "Show": "TRUE"}, "limit": {"quick": quick, "thorough": 12000},
            "thorough": {"Devs": 2 if not any(x.startswith("dpi") or x in ("full", "scal") for x in cases) else 1}}


def io(steps, every, **consts):
    """connections over time: every sequence of so many steps; one of every so many transitions is run"""
    c = dict({"Show": "TRUE"}, **consts)
    return {"model": "IoModel", "set": c, "workers": 1, "limit": {"quick": 500, "thorough": 15000},
            "quick": {"Steps": steps, "Every": every[0]}, "thorough": {"Steps": steps + 1, "Every": every[1]}}


def sock(quick):
    """any system call may fail"""
    return {"model": "SockModel", "set": {"Show": "TRUE"}, "workers": 1, "quick": {"Steps": 2}, "limit": {"quick": quick},
            "thorough": {"Steps": 3, "Every": 11}}


MODELS = {
    "P08": [io(2, (7, 5), Advs="{0, 41}", Waits="{0, 3}", Dgs=2)],
    "P09": [io(3, (7, 3), First="{0, 1, 2}", Advs="{10}", Waits="{0}", Dgs=1)],
    "P10": [io(3, (37, 11), Advs="{0, 10, 40, 41, 60, 61}", Waits="{0}", Dgs=1)],
    "P11": [io(3, (11, 3), First="{0, 1, 2}", Advs="{0, 5, 10, 15, 25}", Waits="{0, 3}", Dgs=0)],
    "P12": [io(2, (7, 5), Advs="{0, 41}", Waits="{0, 3}", Dgs=2)],
    "P01": [prog(["sess", "unsess"]), sock(300)],
    "P02": [prog(["mr", "mr16"], 300),
            {"model": "StreamModel", "set": {"Show": "TRUE"}, "quick": {"Waits0": "{0, 900}"}, "workers": 1,
             "thorough": {"Waits0": "{0, 900}", "Cuts": 2, "Breaks": 2, "Every": 300}, "limit": {"quick": 800}}],
    "P03": [prog(["mr", "mr16"], 300),
            {"model": "StatusModel", "set": {"Show": "TRUE"}, "workers": 1, "quick": {"Steps": 2, "Every": 150}, "limit": {"quick": 500},
             "thorough": {"Steps": 2, "Every": 11}}],
    "P25": [{"model": "PlainModel", "set": {"Show": "TRUE"}, "workers": 1, "quick": {"Steps": 3}, "limit": {"quick": 900},
             "thorough": {"Socks": "{0, 1}", "Steps": 4, "Every": 40}}],
    "P05": [prog(["mr", "mr16"], 300),
            {"model": "ReqModel", "set": {"Show": "TRUE", "Kind": '"resp"'}, "quick": {}, "workers": 1}],
    "P06": [prog(["mr", "sess", "open", "file", "stub", "ident", "dpi"], 900)],
    "P07": [prog(["open", "large"])],
    "P13": [prog(["close"], 400), io(3, (61, 29), Advs="{10, 41}", Waits="{0}", Dgs=1,
                                     Progs='{"close", "handle", "open", "data"}', Fams='{"reentry"}'),
            io(3, (53, 29), Advs="{10, 41}", Waits="{0}", Dgs=1, Progs='{"listen"}', Fams='{"reentry"}')],
    "P14": [prog(["begin"], 300),
            {"model": "FileModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1, "limit": {"quick": 800},
             "thorough": {"Devs": 2, "Extra": "TRUE", "Steps": 6, "Sizes": "{3, 4}", "TSizes": "{2}", "Every": 10}}],
    "P15": [prog(["file", "fsync"])],
    "P16": [prog(["stub", "full", "scal", "update"])],
    "P17": [prog(["ident"])],
    "P19": [{"model": "DiscModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1, "limit": {"quick": 1200},
             "thorough": {"Answers": 3, "Every": 30}}],
    "P20": [prog(["dpi", "dpiclear", "dpidet", "dpicmd", "dpiobj"])],
    "P23": [{"model": "LogModel", "set": {"Show": "TRUE"}, "workers": 1,
             "quick": {"Steps": 5, "Every": 40}, "limit": {"quick": 1000},
             "thorough": {"Steps": 6, "Starts": '{"off", "default", "trace"}', "Levels": "{0, 1, 3, 5}", "Every": 60}}],
    "P04": [{"model": "ReqModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1,
             "thorough": {"Ids": "{0, 1, 2, 127, 128, 255, 256, 257, 32768, 65535}"}}],
    "P21": [{"model": "BufModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1, "limit": {"quick": 800},
             "thorough": {"Steps": 3, "Types": '{"u16", "ss", "cs", "u16v", "rev", "i64"}', "Inits": "{0, 2}", "Every": 4}}],
    "P22": [{"model": "CodecModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1,
             "thorough": {"Ids": "{0, 1, 2, 127, 128, 255, 256, 257, 32768, 65535}", "Bad": "0..255"}}],
    "P18": [{"model": "ScaleModel", "set": {"Show": "TRUE"}, "workers": 1,
             "quick": {"Factors": "{1, 256, 65535}", "Bases": "{1, 65535}", "Offs": "{1, 32768}", "Precs": "{0, 3}"},
             "thorough": {}}],
    "P24": [sock(900)],
    "P26": [{"model": "SigModel", "set": {"Show": "TRUE"}, "workers": 1, "quick": {"Every": 2}, "limit": {"quick": 1000},
             "thorough": {"Most": 3}}],
    # the same behaviours as without a log: what the library does does not depend on the state of the logger
    "P27": [dict(prog(["file", "begin", "ident", "scal", "update", "dpidet", "open", "close"], 400), log="trace"),
            {"model": "DiscModel", "set": {"Show": "TRUE"}, "quick": {}, "workers": 1, "limit": {"quick": 400}, "log": "trace",
             "thorough": {"Answers": 3, "Every": 30}}],
}
