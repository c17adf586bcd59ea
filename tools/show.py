#!/usr/bin/env python3
"""show.py 'rootregex' ['keep regex' ...] : flattened function with terms (development aid)"""
import sys; sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
from gx import core,build,loops
ctx=core.Ctx('X')
part='lib'
a=sys.argv[1:]
if a[0]=='-py': part='py'; a=a[1:]
inl=['inline\t'+x for x in build.INLINE_STD]
facts=False
if a[0]=='-f': facts=True; a=a[1:]
plan=['root\t'+a[0]]+[('inline\t'+x[1:]) if x.startswith('+') else 'keep\t'+x for x in a[1:]]+inl
p=ctx.prog(plan,part)
for f in p.funcs.values():
    s=ctx.sym(f,p,nogate=True)
    print('=====',f.dem,f.where, 'loops',{h:len(b) for h,b in f.loops.items()})
    for b in f.rpo:
        print('B',b,'preds',f.blocks[b].preds,'succ',f.blocks[b].succs, 'facts %s'%s.facts(b) if facts else '')
        for i in f.blocks[b].ins:
            if i.op in ('getelementptr','alloca','sext','zext','trunc') or i.dem and i.dem.startswith('llvm.'): continue
            inf=s.info.get(i.id,{})
            if i.op=='store':
                print('   ',i.id,'STORE',inf['ptr'],':=',inf['val'],'L',i.loc[1]); continue
            if i.op=='load':
                print('   ',i.id,'load',inf['ptr'],'->',inf['val']); continue
            if i.op=='br' and i.ops: print('    br',s.asbool(s.val(i.ops[0])),i.get('succ')); continue
            print('   ',i.id,i.op,(i.dem or '')[:150], inf.get('args') or '', '->', s.vals.get(i.id,''),'L',i.loc[1])
