#!/usr/bin/env python3
"""Authoring-time generator: turn the repository's independent Wolfram data
tables (CodeParser/Data/*.wl) into a frozen Rust table used as an oracle.
The result is committed (harness/src/optable.rs); no check runs this."""
import re,sys
D='/repo/CodeParser/Data/'
def strip(s):
    out='';d=0;i=0
    while i<len(s):
        if s[i:i+2]=='(*': d+=1;i+=2;continue
        if s[i:i+2]=='*)' and d: d-=1;i+=2;continue
        if not d: out+=s[i]
        i+=1
    return out
prec={}
cur=0
for m in re.finditer(r'Precedence`([\w`]+)\s*->\s*(\{[^}]*\}|[\w`]+)',strip(open(D+'Precedence.wl').read())):
    k,v=m.group(1),m.group(2)
    if v.startswith('{'):
        cur+=1
        prec[k]=(cur,'Associativity`Right' in v)
    else:
        prec[k]=prec[v.replace('Precedence`','',1)]
ascii_={'Slash':'/','Caret':'^','Equal':'=','Colon':':','At':'@','Minus':'-','Greater':'>','Less':'<','Semi':';','Dot':'.','Plus':'+','Star':'*','Question':'?','Bar':'|','Amp':'&','Bang':'!','Tilde':'~','SingleQuote':"'",'Under':'_','Comma':','}
def text(tok):
    if tok.startswith('LongName`'): return '\\['+tok[9:]+']'
    if tok.startswith('LinearSyntax`'): return None
    t=tok;o=''
    while t:
        for k in sorted(ascii_,key=len,reverse=True):
            if t.startswith(k): o+=ascii_[k];t=t[len(k):];break
        else: return None
    return o
rows=[]
for f in ('InfixParselets.wl','PrefixParselets.wl'):
    s=strip(open(D+f).read())
    for m in re.finditer(r'Token`([\w`]+)\s*->\s*Parselet`(\w+)\[([^\]]*)\]',s):
        tok,par,args=m.groups()
        a=[x.strip() for x in args.split(',')] if args.strip() else []
        rows.append((f,tok,par,a))
if __name__=='__main__':
    if len(sys.argv)>1:
        for r in rows:
            print(r[1],r[2],r[3],text(r[1]))
        sys.exit()
    kinds={'BinaryOperatorParselet':'Binary','InfixOperatorParselet':'Infix','PrefixOperatorParselet':'Prefix','PostfixOperatorParselet':'Postfix'}
    print('// Generated by tools/gen_optable.py from CodeParser/Data/*.wl; frozen.')
    print('#[derive(Clone, Copy, Debug, PartialEq, Eq)]\npub enum Kind { Binary, Infix, Prefix, Postfix }')
    print('#[derive(Clone, Copy, Debug)]\npub struct Op { pub kind: Kind, pub text: &\'static str, pub prec: u32, pub right: bool, pub name: &\'static str }')
    out=[]
    for f,tok,par,a in rows:
        if par in kinds and text(tok):
            p=prec[a[0].replace('Precedence`','',1)]
            name=a[1].split('`')[-1]
            out.append('    Op { kind: Kind::%s, text: r"%s", prec: %d, right: %s, name: "%s" },'%(kinds[par],text(tok),p[0],'true' if p[1] else 'false',name))
    print('pub const OPS: [Op; %d] = ['%len(out)); print('\n'.join(out)); print('];')
    print('/// Named precedence levels.')
    print('pub const LEVELS: [(&str, u32, bool); %d] = ['%len(prec))
    for k,(v,r) in prec.items(): print('    ("%s", %d, %s),'%(k,v,'true' if r else 'false'))
    print('];')
