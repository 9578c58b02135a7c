F='JSONPathParser/jsonpath_evaluator.h'
SEEDS=[
dict(id='s14',property='J11',edits=[(F,'int r = strcmp(table[i].key, name);','int r = strncmp(table[i].key, name, strlen(name));')],
 needs='a filter that uses two members, the name of one being the beginning of the name of the other, and the longer one being mentioned first',
 breaks='the value of the longer-named member is used for the shorter-named one',
 demo='''build q.c
check s '$.a[?(@.price > 5 && @.pr < 3)].x' '{"a":[{"price":7,"pr":1,"x":1},{"price":1,"pr":1,"x":2},{"price":8,"pr":4,"x":3}]}' 'n=1
1
'
check s '$.a[?(@.pr < 3)].x' '{"a":[{"pr":1,"x":1},{"pr":4,"x":3}]}' 'n=1
1
'
'''),
dict(id='s15',property='J11',edits=[(F,'            v = computeBinaryOperator(jot_equal, v1, v2);\n            v.boolean = !(v.boolean);','            v = computeBinaryOperator(jot_equal, v1, v2);\n            v.boolean = !(v.boolean) && (v1.vtype == v2.vtype || v1.vtype == jvt_null || v2.vtype == jvt_null);')],
 needs='an inequality between a member and a literal of another kind (a number member compared with a string)',
 breaks='values of different kinds are neither equal nor unequal, so the element is dropped',
 demo='''build q.c
check s '$.a[?(@.k != "x")].v' '{"a":[{"k":"x","v":1},{"k":"y","v":2},{"k":5,"v":3},{"k":true,"v":4}]}' 'n=3
2
3
4
'
'''),
]
