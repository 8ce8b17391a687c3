import re
for f in ("tab_detail","tab_gerg"):
    s=open(f"src/{f}.rs").read()
    names=[]
    def r(m):
        names.append((m[1],m[2])); return f"pub static {m[1]}: crate::T<{m[2]}> = crate::T(std::cell::UnsafeCell::new("
    s=re.sub(r"pub static (\w+): (\[.*?\]) = ",r,s)
    s=s.replace("];","]));") if False else re.sub(r"\];$","]));",s,flags=re.M)
    reg="pub fn all() -> Vec<(&'static str, *mut f64, usize, usize)> { vec!["
    for n,t in names:
        if t.startswith("[[f64"):
            a,b=re.findall(r"(\d+)\]",t)[::-1]; reg+=f'("{n}", {n}.0.get() as *mut f64, {a}, {b}),'
        elif t.startswith("[f64"):
            a=re.findall(r"(\d+)\]",t)[0]; reg+=f'("{n}", {n}.0.get() as *mut f64, {a}, 1),'
    s+="\n"+reg+"]}\n"
    open(f"src/{f}.rs","w").write(s)
