F='DFABuilder/src/dfa_builder.cpp'
SEEDS=[
dict(id='s31',property='J08',edits=[(F,'else end = INT_MAX;','else end = 32767;')],
 needs='a slice without an end on an array of more than 32767 elements',
 breaks='elements from index 32767 on are not selected',
 demo='''build q.c
python3 - "$T/in.json" <<'P'
import sys
open(sys.argv[1],'w').write('{"a":['+','.join(str(i) for i in range(32770))+']}')
P
printf '%s' "$(cat "$T/in.json")" > "$T/j"
check s '$.a[32766:]' "$(cat "$T/j")" 'n=4
32766
32767
32768
32769
'
'''),
dict(id='s32',property='J08',edits=[(F,'s->setOpt(RegexItem::re_nonzero_repetition);','s->setOpt(RegexItem::re_repetition);')],
 needs='a path with .. in front of a wildcard or name',
 breaks='a descendant step is also satisfied by no step at all',
 demo='''build q.c
check s '$.a..*' '{"a":{"b":{"c":1}},"d":2}' 'n=2
1
{"c":1}
'
check s '$.a..b' '{"a":{"b":{"b":1}},"b":3}' 'n=2
1
{"b":1}
'
'''),
dict(id='s33',property='J10',edits=[(F,'if (pair.first || pair.second) {','if (pair.first && pair.second) {')],
 needs='a slice beginning at index 0',
 breaks='the range of a slice that begins at 0 is lost, so every element is selected',
 demo='''build q.c
check s '$.a[0:2].x' '{"a":[{"x":1},{"x":2},{"x":3}]}' 'n=2
1
2
'
'''),
dict(id='s34',property='J10',edits=[(F,'state_handle_now = model->size()-1;\n','if (!states_mapping.size()) state_handle_now = model->size()-1;\n')],
 needs='a path with two filters',
 breaks='the condition of the second filter is listed with the first one',
 demo='''build q.c
check s '$.a[?(@.x>1)].b[?(@.y>1)].z' '{"a":[{"x":1,"b":[{"y":2,"z":1}]},{"x":2,"b":[{"y":2,"z":2},{"y":1,"z":3}]}]}' 'n=1
2
'
'''),
dict(id='s35',property='J08',edits=[(F,"while (std::getline(tokenStream, token, '.')) {","while (count < 2 && std::getline(tokenStream, token, '.')) {")],
 needs='a filter condition on a property path of three steps',
 breaks='the condition is looked up two steps deep',
 demo='''build q.c
check s '$.a[?(@.p.q.r > 3)].y' '{"a":[{"p":{"q":{"r":5}},"y":1},{"p":{"q":{"r":2}},"y":2}]}' 'n=1
1
'
'''),
dict(id='s36',property='J10',edits=[(F,'ctx->array_range[stop_state-1]','ctx->array_range[i ? i-1 : 0]')],
 needs='a path with a descendant step in front of a slice, whose positions are not numbered in step order',
 breaks='the range of a slice is attached to another position',
 demo='''build q.c
check s '$..a[1:2].b' '{"c":{"a":[{"b":1},{"b":2},{"b":3}]}}' 'n=1
2
'
check s '$..a[1:2]..b' '{"c":{"a":[{"b":1},{"d":{"b":2}},{"b":3}]}}' 'n=1
2
'
'''),
]
