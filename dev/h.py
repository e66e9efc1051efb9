"""development: from h import *; ctx=mk("C20")"""
import sys, types
sys.path.insert(0,"/verif/sa"); sys.path.insert(0,"/verif/sa/rules"); sys.setrecursionlimit(20000)
_s=open("/verif/sa/main.py").read().replace("sys.exit(main())","").replace('sys.modules["main"] = sys.modules["__main__"]','')
main=types.ModuleType("main"); main.__file__="/verif/sa/main.py"; sys.modules["main"]=main; exec(compile(_s,"main","exec"),main.__dict__)
def mk(i): return main.Ctx(i)
