F='JSONQuery/parallel_automata_execution.h'; Q='JSONQuery/multi_stack.h'; W='JSONQuery/worker_automaton.c'
GEN='''python3 - "$T/j" "$T/w" <<'P'
import sys, json
%s
doc=json.dumps(doc,separators=(',',':'))
open(sys.argv[1],'w').write(doc)
open(sys.argv[2],'w').write('n=%%d\\n'%%len(want)+''.join('%%s\\n'%%x for x in want))
P
for m in s p2 p3 p4 p5 p7 p8; do check $m '%s' "$(cat "$T/j")" "$(cat "$T/w")
"; done
'''
def demo(*parts):
    return 'build q.c\n'+''.join(GEN%p for p in parts)
REC=('''doc={"r":[{"a":[{"b":i},{"b":i+1}],"c":[1,2,3]} for i in range(40)]}
want=[x for i in range(40) for x in (i,i+1)]''','$.r[*].a[*].b')
RANGE=('''doc={"r":[{"x":'s%d'%i,"y":{"z":i}} for i in range(30)]}
want=['"s%d"'%i for i in range(17,23)]''','$.r[17:23].x')
NEST=('''doc={"r":[[['a%d'%i,'b%d'%i,'c%d'%i,'d%d'%i] for i in range(7)] for k in range(5)]}
want=['"%s%d"'%(c,i) for k in range(1,4) for i in range(2,6) for c in 'bc']''','$.r[1:4][2:6][1:3]')
OBJ=('''doc={"r":[{"o":{"k":i,"l":[i,i],"m":{"n":'t%d'%i}}} for i in range(25)]}
want=[json.dumps(x["o"],separators=(',',':')) for x in doc["r"]]''','$.r[*].o')
ARR=('''doc={"r":[{"o":['u%d'%i,'v',{"w":i}]} for i in range(25)]}
want=[json.dumps(x["o"],separators=(',',':')) for x in doc["r"]]''','$.r[*].o')
PRED=('''doc={"r":[{"x":i%3,"y":'w%d'%i} for i in range(30)]}
want=['"w%d"'%i for i in range(30) if i%3==1]''','$.r[?(@.x==1)].y')
TOP=('''doc=[{"x":i%3,"y":'w%d'%i} for i in range(30)]
want=['"w%d"'%i for i in range(30) if i%3==1]''','$[?(@.x==1)].y')
SEEDS=[
dict(id='s40',property='J16',edits=[(F,'for(int j = 0; j<=ul.count_units; j++)','for(int j = 0; j<ul.count_units; j++)')],
 needs='a later chunk that is cut into several units',
 breaks='the results of the last unit of a chunk are lost when chunks are merged', demo=demo(REC)),
dict(id='s41',property='J16',edits=[(F,'''                            qs.node[qs_elt.start].count++;  
                            int matched_type''','''                            int matched_type''')],
 needs='an index range over an array of objects, one of which spans two chunks',
 breaks='an object that ends in a later chunk than it begins in is not counted as an element: the range selects the wrong elements', demo=demo(RANGE)),
dict(id='s42',property='J16',edits=[(F,'''                            //increase array counter
                            qs.node[qs_elt.start].count++;  
''','''                            if(c_node.matched_start==INVALID) qs.node[qs_elt.start].count++;  
''')],
 needs='an index range over nested arrays, whose selected element spans two chunks as an open match',
 breaks='a matched array ending in a later chunk is not counted as an element of the array around it', demo=demo(('''doc={"r":[['a%d'%i,'b%d'%i,'c%d'%i,'d%d'%i] for i in range(20)]}
want=[json.dumps(x,separators=(',',':')) for x in doc["r"][3:9]]''','$.r[3:9]'),('''doc={"r":[['a%d'%i,'b%d'%i,'c%d'%i,'d%d'%i] for i in range(20)]}
want=[json.dumps(x,separators=(',',':')) for x in doc["r"][1:12]]''','$.r[1:12]'))),
dict(id='s43',property='J16',edits=[(Q,'dst_qs->node[node_index].count = src_qs->node[start].count;','dst_qs->node[node_index].count = 0;')],
 needs='an index range on an array that begins inside a later chunk and ends in the one after it',
 breaks='the elements counted before the border are forgotten: indices start again at zero', demo=demo(NEST)),
dict(id='s44',property='J16',edits=[(Q,'if(src_qs->root_pointers[root_start]==root_index)','if(root_start>=src_qs->node[start].root_range.start)')],
 needs='a chunk that leaves several tracked positions open on one level',
 breaks='the position tracked from another assumed start position is taken over', demo=demo(REC,NEST,OBJ)),
dict(id='s45',property='J16',edits=[(F,'tuple_index = unit.root_node[l].first_tuple_index;','tuple_index = unit.root_node[l].last_tuple_index;')],
 needs='a unit that yields more than one result',
 breaks='only the last result of every unit is taken over', demo=demo(REC)),
dict(id='s46',property='J16',edits=[(F,'''                            if(matched_type==DFA_PREDICATE)
                            {
                                sum++; ''','''                            if(matched_type==DFA_PREDICATE && syntaxStackSize(&ss)>1)
                            {
                                sum++; ''')],
 needs='a filtered array at the top of the document, whose element spans two chunks',
 breaks='the mark that ends an element before its filter is decided is left out: its values run into those of the next element', demo=demo(TOP)),
dict(id='s47',property='J16',edits=[(F,'for(int k = 0; k<=count_unmatched_symbols; k++)','for(int k = 0; k<=count_unmatched_symbols && k<2; k++)')],
 needs='a chunk that begins with three or more closing brackets of elements opened before it',
 breaks='only the first two brackets close what earlier chunks left open', demo=demo(('''d=lambda i:{"a":{"b":{"c":{"d":{"e":i}}}},"f":i}
doc={"r":[d(i) for i in range(40)]}
want=list(range(40))''','$.r[*].f'))),
dict(id='s48',property='J16',edits=[(F,'getTuple(tl, tuple_index); \n                tuple_index = tuple.next_index;','getTuple(tl, tuple_index); \n                tuple_index = tuple.next_index!=tuple_index+1 ? -1 : tuple.next_index;')],
 needs='a unit in which another assumed position has results as well', 
 breaks='the list of results of a unit is cut off where the next one was not recorded directly behind', demo=demo(('''doc={"r":[{"a":{"b":i},"b":{"b":i+100}} for i in range(40)]}
want=[x for i in range(40) for x in (i,json.dumps({"b":i+100},separators=(',',':')),i+100)]
want=[y for i in range(40) for y in (i,i+100,json.dumps({"b":i+100},separators=(',',':')))]''','$..b'))),
]
