import os,re,random,subprocess,sys,json,shutil,time
W="/tmp/mut/w"; B="/tmp/mut/b"
MAP={
 "core/reactor_common.c":["C01","C04","C05","C06","C07","C09","C11","C10","C12","C13","C14","F12"],
 "core/threaded/reactor_threaded.c":["C13","C02","C01","C05","C07","C10","C03","F12"],
 "core/threaded/scheduler_NP.c":["C02","C13","C01","C10"],
 "core/threaded/scheduler_GEDF_NP.c":["C02","C13","C01","C10"],
 "core/threaded/scheduler_adaptive.c":["C02","C13","C01","C10"],
 "core/threaded/scheduler_sync_tag_advance.c":["C13","C03","F12"],
 "core/threaded/watchdog.c":["C12"],
 "core/reactor.c":["C01","C05","C07","C03","C04","C10"],
 "core/tag.c":["C17","C03","C18","F03","C01"],
 "core/clock.c":["C18","C03","C05"],
 "core/lf_token.c":["C09","C01","C08"],
 "core/port.c":["C08","C01"],
 "core/mixed_radix.c":["C20"],
 "core/environment.c":["C01","C11","C13","C08"],
 "core/modal_models/modes.c":["C11"],
 "core/utils/pqueue.c":["C15"],"core/utils/pqueue_base.c":["C15","C01"],"core/utils/pqueue_tag.c":["C15","F01"],
 "core/utils/vector.c":["C16"],"core/utils/hashset/hashset.c":["C16"],"core/utils/hashset/hashset_itr.c":["C16"],
 "core/utils/util.c":["C19"],
 "core/federated/RTI/rti_common.c":["F01","F02","F03","F12"],
 "core/federated/RTI/rti_remote.c":["F01","F02","F04","F05","F06","F07","F12"],
 "core/federated/federate.c":["F12"],
 "core/federated/network/net_util.c":["F12","F06"],
 "low_level_platform/impl/src/lf_unix_clock_support.c":["C03","C18","C05"],
}
OPS=[(r"<=","<"),(r">=",">"),(r"(?<![<\-])<(?![<=])","<="),(r"(?<![>\-])>(?![>=])",">="),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),
 (r"\+ 1\b","+ 0"),(r"- 1\b","- 0"),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\b0\b","1"),(r"\b1\b","0"),(r"!(?=[a-zA-Z_(])",""),(r"\+\+",""),(r"--",""),(r"\+=","-="),(r" \+ "," - "),(r" - "," + "),
 (r"\bNEVER\b","FOREVER"),(r"\bbreak;",";"),(r"\bcontinue;",";"),("DEL",None),("DEL",None),("DEL",None),("IF0",None),("IF1",None)]
def cands(f):
    src=open("/repo/"+f).read().split("\n"); out=[]; depth=0; com=False
    for i,l in enumerate(src):
        s=l.strip()
        if s.startswith("/*"): com=True
        if com:
            if "*/" in s: com=False
            continue
        if s.startswith("//") or s.startswith("#") or s.startswith("*"): continue
        d0=depth
        depth+=l.count("{")-l.count("}")
        if d0<=0: continue
        if re.search(r"LF_PRINT|lf_print|tracepoint|assert|LF_ASSERT|PRINTF_|\bfprintf|printf\(",l): continue
        if s.startswith("}") or not s: continue
        code=l.split("//")[0]
        for p,r in OPS:
            if p=="DEL":
                if s.endswith(";") and not re.match(r"(return|break|continue|case|default|goto)\b",s) and not re.match(r"(const |static |unsigned |struct )?[a-zA-Z_][\w ]*[\w\*]\s+\**\w+(\[.*\])?\s*(=.*)?;$",s) and code.count("(")==code.count(")"):
                    ind=l[:len(l)-len(l.lstrip())]
                    out.append((f,i,l,ind+";","DEL"))
            elif p in("IF0","IF1"):
                m=re.match(r"(\s*(?:\} else )?if )\((.*)\) \{\s*$",code)
                if m: out.append((f,i,l,m.group(1)+("(0 && (%s)) {" if p=="IF0" else "(1 || (%s)) {")%m.group(2),p))
            else:
                for m in re.finditer(p,code):
                    q=code.count('"',0,m.start())
                    if q%2: continue
                    if p in("==","!=") and code[m.start()-1] in "<>": continue
                    n=code[:m.start()]+r+code[m.end():]+l[len(code):]
                    out.append((f,i,l,n,p))
    return out
def sh(c,t=600,env=None):
    try:
        r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env,start_new_session=True)
        return r.returncode,r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f /tmp/mut/w/_build",shell=True)
        return 124,""
def setup():
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.run(["cp","-a","/repo",W]); shutil.rmtree(W+"/_build",ignore_errors=True)
    b=open("/opt/vp/build.sh").read().replace("cd /repo","cd "+W)
    b=b.split("# Compile-only")[0]+"\nexit $rc\n"
    open("/tmp/mut/build.sh","w").write(b)
    t=open("/opt/vp/test.sh").read().replace("/repo",W); open("/tmp/mut/test.sh","w").write(t)
    print(sh("bash /tmp/mut/build.sh")[1][-300:])
    base()
def base():
    return sh("bash /tmp/mut/test.sh /tmp/mut/t.json",120)
def main(seed,files,n,secs):
    rnd=random.Random(seed)
    log=open("/tmp/mut/log_%s.jsonl"%seed,"a")
    pool=[]
    for f in files: pool.append(cands(f))
    t0=time.time()
    for k in range(n):
        c=rnd.choice(rnd.choices(pool,[len(p)**0.6 for p in pool])[0])
        f,i,old,new,op=c
        if new==old: continue
        p=W+"/"+f; src=open("/repo/"+f).read(); L=src.split("\n"); L[i]=new
        open(p,"w").write("\n".join(L))
        res=None
        try:
            rc,o=sh("bash /tmp/mut/build.sh",300)
            if rc: res="nobuild"; continue
            if os.path.exists("/tmp/mut/t.json"): os.remove("/tmp/mut/t.json")
            rc,o=base()
            try: tj=json.load(open("/tmp/mut/t.json"))
            except Exception: tj={"failed":["?"],"passed":[]}
            if tj.get("failed") or len(tj["passed"])<12: res="tests"; continue
            env=dict(os.environ,RX_REPO=W,RX_BUILD=B,RX_NOSHRINK="1",RX_SECONDS=str(secs))
            res="SURVIVED"
            for ch in MAP[f]:
                rc,o=sh("cd /tmp/mut/verif && timeout 300 python3 -m checks.%s"%ch,400,env)
                if rc==1 and "VIOLATION" in o: res="caught "+ch; break
                if rc not in(0,1): res="noanswer %s %d %s"%(ch,rc,o[-200:]); break
        finally:
            open(p,"w").write(src)
            log.write(json.dumps([res,f,i+1,op,old.strip(),new.strip()])+"\n"); log.flush()
            shutil.rmtree(B,ignore_errors=True)
    log.write(json.dumps(["end",time.time()-t0])+"\n")
if __name__=="__main__":
    if sys.argv[1]=="setup": setup()
    else: main(int(sys.argv[1]),sys.argv[4].split(",") if len(sys.argv)>4 else list(MAP),int(sys.argv[2]),float(sys.argv[3]))
