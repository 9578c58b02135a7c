F='JSONQuery/predicate.c'
SEEDS=[
dict(id='s16',property='J13',edits=[(F,'if(getPredicateStackSize(&ps)==1)','if(getPredicateStackSize(&ps)>=1)')],
 needs='a filtered element inside another element of the same filter, the inner filter being true and the outer one false',
 breaks='results of the inner element are delivered although the filter of the element around it is false',
 demo='''build q.c
check s '$..a[?(@.x > 1)].y' '{"a":[{"x":0,"b":{"a":[{"x":5,"y":7}]},"y":3},{"x":4,"y":9}]}' 'n=1
9
'
check s '$..a[?(@.x > 1)].y' '{"a":[{"x":2,"b":{"a":[{"x":5,"y":7}]},"y":3},{"x":4,"y":9}]}' 'n=3
7
3
9
'
'''),
dict(id='s17',property='J13',edits=[(F,'if(strcmp(pc[index].name, node->string)==0) break;','if(strncmp(pc[index].name, node->string, strlen(node->string))==0) break;')],
 needs='a filter with two conditions, the longer name first and the shorter name being its beginning',
 breaks='the value of the shorter-named condition is stored as the value of the longer-named one',
 demo='''build q.c
check s '$.a[?(@.price > 5 && @.pr < 3)].x' '{"a":[{"price":7,"pr":1,"x":1},{"price":1,"pr":1,"x":2},{"price":8,"pr":4,"x":3}]}' 'n=1
1
'
'''),
dict(id='s18',property='J13',edits=[(F,'for(int j = first_idx; j<buf_size; j++)','for(int j = first_idx; j<buf_size && j-first_idx<64; j++)')],
 needs='one filtered element that holds more than 64 results',
 breaks='only the first 64 results of an element are delivered',
 demo='''build q.c
N=$(seq -s, 1 100)
check s '$.a[?(@.x > 1)].y[*]' '{"a":[{"x":2,"y":['$N']}]}' "n=100
$(seq 1 100)
"
'''),
]
