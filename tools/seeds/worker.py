W='JSONQuery/worker_automaton.c'; Q='JSONQuery/multi_stack.h'
GEN='''python3 - "$T/j" "$T/w" <<'P'
import sys
%s
open(sys.argv[1],'w').write(doc)
open(sys.argv[2],'w').write('n=%%d\\n'%%len(want)+''.join('%%s\\n'%%x for x in want))
P
'''
RUN='''for m in %s; do check $m '%s' "$(cat "$T/j")" "$(cat "$T/w")
"; done
'''
SEEDS=[
dict(id='s37',property='J15',edits=[(Q,'while(root_s<=root_e)','if(root_s<=root_e)',0)],
 needs='a parallel run of a path with a descendant step, whose positions meet inside a later chunk',
 breaks='a match is recorded for only one of the start positions it is reached from',
 demo='build q.c\n'+GEN%'''rec=lambda i:'{"a":{"k":{"b":%d}},"c":%d}'%(i,i)
doc='{"r":['+','.join(rec(i) for i in range(40))+']}'
want=list(range(40))'''+RUN%('s p2 p3 p4 p5','$..b')),
dict(id='s38',property='J15',edits=[(W,'us.index = lexer.next_start - lexer.begin_stream - 1;','us.index = lexer.next_start - lexer.begin_stream;',1)],
 needs='a matched array that ends in a later chunk than it begins in',
 breaks='the text of the match includes the byte behind its closing bracket',
 demo='build q.c\n'+GEN%'''a='['+','.join('"%d"'%i for i in range(20))+']'
doc='{"r":'+a+',"z":1}'
want=[a]'''+RUN%('s p2','$.r')),
dict(id='s39',property='J15',edits=[(W,'unit.has_pruned = PRUNED;','',1)],
 needs='a parallel run with learned constraints and a chunk whose outermost level holds several keys',
 breaks='the learned restriction is applied a second time, to the already reduced list of positions',
 demo='build q.c\n'+GEN%'''rec=lambda i:'{"a":%d,"b":%d,"c":{"d":%d},"e":%d}'%(i,i+1,i,i)
doc='{"r":{"s":['+','.join(rec(i) for i in range(60))+']}}'
want=[i+1 for i in range(60)]'''+RUN%('s o2 o3 o4 o5 o6','$.r.s[*].b')),
]
