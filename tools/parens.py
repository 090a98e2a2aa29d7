"""Insert the parentheses TLA+ requires in mixed chains of * and / (left to right)."""
import re, sys
TOK = re.compile(r'\\\*[^\n]*|\(\*.*?\*\)|"[^"]*"|<<|>>|==|=>|/\\|\\/|\\[a-z]+|:=|->|\.\.|[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_][A-Za-z_0-9]*)*|\d+(?:\.\d+)?|\s+|.', re.S)
LEAD = re.compile(r'(\s|\\\*[^\n]*\n|\(\*.*?\*\))*', re.S)
KEY = {'LET','IN','IF','THEN','ELSE','CASE','OTHER','LAMBDA','CHOOSE','EXTENDS','MODULE','LOCAL','INSTANCE','EXCEPT','DOMAIN','UNION','SUBSET'}
def run(t):
    toks = TOK.findall(t)
    blank = lambda s: s.isspace() or s.startswith('\\*') or s.startswith('(*')
    # tree of brackets
    pos = 0
    def group(close):
        nonlocal pos
        out = []
        while pos < len(toks):
            s = toks[pos]; pos += 1
            if s == close: return out
            if s in ('(', '[', '{', '<<'):
                c = {'(' : ')', '[' : ']', '{' : '}', '<<' : '>>'}[s]
                out.append((s, group(c), c))
            else: out.append(s)
        return out
    def render(ns):
        # find operands and operators
        res = []; i = 0
        chain = []  # list of [text, op]
        def flush():
            nonlocal chain
            if not chain: return
            ops = [o for _, o in chain if o]
            if len(ops) > 1 and '/' in ops:
                s = chain[0][0].strip(); lead = LEAD.match(chain[0][0]).group(0); s = chain[0][0][len(lead):].strip()
                tail = chain[-1][0][len(chain[-1][0].rstrip()):]
                n = len(chain)
                for j in range(1, n):
                    s = s + ' ' + chain[j-1][1] + ' ' + chain[j][0].strip()
                    if j < n - 1: s = '(' + s + ')'
                res.append(lead + s + tail)
            else:
                for a, o in chain: res.append(a + (o or ''))
            chain = []
        cur = ''; has = False
        def txt(x): return x[0] + render(x[1]) + x[2] if isinstance(x, tuple) else x
        while i < len(ns):
            x = ns[i]; i += 1
            if isinstance(x, tuple):
                cur += txt(x); has = True; continue
            if blank(x):
                cur += x; continue
            if re.match(r'[A-Za-z_0-9"]', x) and x not in KEY:
                cur += x; has = True; continue
            if x in '*/' and has:
                chain.append([cur, x]); cur = ''; has = False; continue
            # any other token ends the chain
            if chain:
                chain.append([cur, None]); flush()
            else: res.append(cur)
            res.append(x); cur = ''; has = False
        if chain:
            chain.append([cur, None]); flush()
        else: res.append(cur)
        return ''.join(res)
    return render(group(None))
for f in sys.argv[1:]:
    t = open(f).read()
    m = re.search(r'^\w*-+ MODULE.*?\n', t, re.M); h = t[:m.end()]
    e = t.rstrip().rfind('\n') ; body = t[m.end():e+1]; tail = t[e+1:]
    # operators separated by newlines: protect definitions "Name(args) ==" by processing as-is
    open(f, 'w').write(h + run(body) + tail)
