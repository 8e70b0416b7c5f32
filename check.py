#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os,sys
if len(sys.argv)>2: os.environ["VERIF_TIER"]=sys.argv[2]
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vlib, props
def main():
    pid=sys.argv[1]; P=props.PROPS[pid]
    try: rc=vlib.check(pid,P["jobs"](vlib.TIER),P["assumptions"]+props.COMMON_ASSUMPTIONS,P.get("notes",""))
    except vlib.BuildError as e: print("build error: "+str(e)[-3000:]); rc=2
    sys.exit(rc)
if __name__=="__main__": main()
