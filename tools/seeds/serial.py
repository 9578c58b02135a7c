SA='JSONQuery/streaming_automaton.c'
SEEDS=[
dict(id='s01',property='J04',edits=[(SA,'''                            elt_ary_e(qs_elt, ss, qs); 
                            increaseArrayCounter(qs_elt);''','''                            increaseArrayCounter(qs_elt);
                            elt_ary_e(qs_elt, ss, qs); ''')],
 needs='an array with array elements in front of the selected index',
 breaks='the index of the inner, already finished array is counted up instead of the enclosing one',
 demo='''build q.c
check s '$.a[2:3]' '{"a":[[1,2],[3],"x","y"]}' 'n=1
"x"
'
check s '$.a[1:2]' '{"a":[5,6,7]}' 'n=1
6
\''''),
dict(id='s02',property='J05',edits=[(SA,'''    if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))  
        next_qs_elt.query_state = 0; 
    else //get''','''    if(!((lower==0&&upper==0)||(counter>=lower && counter<=upper)))  
        next_qs_elt.query_state = 0; 
    else //get''')],
 needs='a step by key below a ranged array step, and an object exactly at the upper bound',
 breaks='descending by key also accepts the element whose index equals the exclusive upper bound',
 demo='''build q.c
check s '$.a[0:2].b' '{"a":[{"b":1},{"b":2},{"b":3},{"b":4}]}' 'n=2
1
2
'
check s '$.a[0:2]' '{"a":[1,2,3]}' 'n=2
1
2
\''''),
dict(id='s03',property='J06',edits=[(SA,'''                    else if(matched_type==DFA_CONDITION)
                    {
                        addTuple(tl, qs_elt->query_state, "");
                    }
                }
                if(data''','''                }
                if(data''')],
 needs='a filter on a property whose value is an array',
 breaks='an array in a condition position leaves no condition record, so existence filters miss it',
 demo='''build q.c
check s '$.a[?(@.b)].c' '{"a":[{"b":[1],"c":1},{"c":2},{"b":{},"c":3},{"b":7,"c":4}]}' 'n=3
1
3
4
\''''),
dict(id='s04',property='J03',edits=[(SA,'''    queryStackPop(qs);
    *qs_elt = queryStackPop(qs); 
    syntaxStackPop(ss); ''','''    *qs_elt = queryStackPop(qs);
    if(syntaxStackSize(ss)>3) *qs_elt = queryStackPop(qs); 
    syntaxStackPop(ss); ''')],
 needs='an array as member value of the outermost object followed by a key of that object',
 breaks='the position to return to after an array member of the outermost object stays on the stack',
 demo='''build q.c
check s '$.b' '{"a":[1,2],"b":3}' 'n=1
3
'
check s '$.c.b' '{"c":{"a":[1,2],"b":3}}' 'n=1
3
\''''),
dict(id='s05',property='J07',edits=[('DFABuilder/include/dfa.h','strcmp(getDFAInputType(dfa, cinput), input) == 0','strncmp(getDFAInputType(dfa, cinput), input, strlen(getDFAInputType(dfa, cinput))) == 0')],
 needs='a key that starts with the name of a query step',
 breaks='a key that merely starts with a queried name is taken for it',
 demo='''build q.c
check s '$.ab' '{"a":1,"ab":2,"abc":3}' 'n=1
2
\''''),
dict(id='s06',property='J20',edits=[('JSONQuery/constraint.h','''            if(ct->constraint_info[index].state_set[state_index]==state)
                break;''','''            if(ct->constraint_info[index].state_set[state_index]>=state)
                break;''')],
 needs='a key seen first at a larger and then at a smaller query position',
 breaks='a position smaller than one already recorded for the token is lost',
 files={'d.c':'''#include <stdio.h>
#include "path_processor.h"
int main(){
    ConstraintTable* ct = createConstraintTable();
    addConstraintInfo(ct, 3, KY, "a"); addConstraintInfo(ct, 1, KY, "a"); addConstraintInfo(ct, 1, KY, "a");
    ConstraintInfo ci; ci.type = KY; strcpy(ci.token_name, "a");
    updateStateInfo(ct, &ci);
    return !(ci.num_state==2 && ci.state_set[0]==3 && ci.state_set[1]==1);
}
'''},
 demo='build d.c\n"$T/q" || exit 1'),
dict(id='s07',property='J21',edits=[('JSONQuery/stack.h','    if(ss->top_item<MAX_STACK-1)','    if(ss->top_item<=MAX_STACK-1)')],
 needs='a document nested exactly one level deeper than the stack holds',
 breaks='the push at full depth writes the stack top field behind the storage',
 files={'d.c':'''#include <stdio.h>
#include "path_processor.h"
int main(){
    static SyntaxStack ss; int i;
    initSyntaxStack(&ss);
    for(i = 0; i<MAX_STACK+1; i++) syntaxStackPush(&ss, LB);
    return !(syntaxStackSize(&ss)==MAX_STACK && syntaxStackTop(&ss)==LB);
}
'''},
 demo='build d.c\n"$T/q" || exit 1'),
]
