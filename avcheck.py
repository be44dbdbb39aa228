#!/usr/bin/env python3
"""avcheck.py <property> [--thorough] | --replay <file> | --list"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simcheck import build, driver


def classes():
    from simcheck import checks_calls
    mods = [checks_calls]
    for n in ("checks_media", "checks_ffmpeg", "checks_cli", "checks_vs"):
        try:
            mods.append(__import__("simcheck." + n, fromlist=["x"]))
        except ModuleNotFoundError:
            pass
    return {c.prop: c for m in mods for c in m.ALL}


def main(a):
    cs = classes()
    if a[:1] == ["--list"]:
        print("\n".join(sorted(cs)))
        return 0
    try:
        if "--replay" in a[:2]:
            return driver.replay_file(cs, a[a.index("--replay") + 1])
        return driver.run_check(cs[a[0]], a[1:])
    except build.BuildError as e:
        print("check error: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
