SA='JSONQuery/streaming_automaton.c'; PP='JSONQuery/path_processor.h'
PORT='''/* q MODE PATH PORTION...: evaluates the portions one after another and prints all results */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "path_processor.h"
int main(int argc, char** argv)
{
    PathProcessor* pp = createPathProcessor(argv[2]);
    StreamingContext ci; initStreamingContext(&ci);
    Output* out = NULL; ConstraintTable* ct = NULL; int i;
    if(argv[1][0]=='o') ct = collectDataConstraints(pp, getenv("TRAIN"));
    for(i = 3; i<argc; i++)
    {
        char* s = strdup(argv[i]);
        if(argv[1][0]=='s') out = serialPartialRun(pp, s, &ci);
        else if(argv[1][0]=='p') out = parallelPartialRun(pp, s, atoi(argv[1]+1), &ci);
        else out = parallelPartialRunOpt(pp, s, atoi(argv[1]+1), ct, &ci);
        free(s);
    }
    int n = out==NULL ? 0 : getOutputSize(out);
    printf("n=%d\\n", n);
    for(i = 0; i<n; i++) printf("%s\\n", out->element[i]);
    fflush(stdout);
    _Exit(0);
}
'''
PCHECK='''
pcheck() { # MODE PATH EXPECTED PORTION...
  m=$1; p=$2; w=$3; shift 3
  timeout 60 "$T/q" "$m" "$p" "$@" 2>/dev/null | sed '0,/^n=/{/^n=/!d}' > "$T/got"
  printf '%s' "$w" > "$T/want"
  if ! diff "$T/want" "$T/got" > "$T/diff"; then echo "query $p in mode $m on portions $*"; head -c 2000 "$T/diff"; exit 1; fi
}
'''
HEAP='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include "path_processor.h"
static long used(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks+m.hblkhd; }
int main(int argc, char** argv)
{
    PathProcessor* pp = createPathProcessor(argv[2]);
    long a = 0, b = 0; int i;
    for(i = 0; i<4; i++)
    {
        Output* out = argv[1][0]=='s' ? serialRun(pp, argv[3]) : parallelRun(pp, argv[3], atoi(argv[1]+1));
        if(out) freeOutput(out);
        b = used();
        if(i==1) a = b;
    }
    fprintf(stderr, "%ld\\n", b-a);
    /* chunk texts, lists, results: everything is larger than this */
    return b-a>LIMIT;
}
'''
SEEDS=[
dict(id='s23',property='J18',edits=[(SA,'    sa->count = qs_elt->count;','    sa->count = syntaxStackTop(ss)==LB ? qs_elt->count : 0;')],
 needs='a portion of the input that ends inside an object which is an element of an array, and an index range on that array',
 breaks='the next portion counts the elements of the array from 0 again',
 files={'p.c':PORT},
 demo='build p.c\n'+PCHECK+'''
pcheck s '$.a[2:4].b' 'n=2
2
3
' '{"a":[{"b":0},{"b":1},{"b":2,' '"c":9},{"b":3},{"b":4}]}'
pcheck s '$.a[2:4].b' 'n=2
2
3
' '{"a":[{"b":0},{"b":1,' '"c":7},{"b":2},{"b":3},{"b":4}]}'
'''),
dict(id='s24',property='J18',edits=[(PP,'''    Output* output = generateFinalOutput(&pf);
    ci->pf = pf;
''','''    ci->pf = pf;
    Output* output = generateFinalOutput(&pf);
''',2)],
 needs='evaluation with learned constraints, a document in two portions and a filtered element that starts in the first and ends in the second portion',
 breaks='the filter forgets the open element and its conditions when the next portion starts',
 files={'p.c':PORT},
 demo='build p.c\n'+PCHECK+'''
printf '%s' '{"a":[{"x":5,"y":1},{"x":6,"y":2}]}' > "$T/train.json"
export TRAIN="$T/train.json"
pcheck o1 '$.a[?(@.x > 3)].y' 'n=2
1
2
' '{"a":[{"x":5,' '"y":1},{"x":6,"y":2},{"x":1,"y":3}]}'
'''),
dict(id='s25',property='J19',edits=[('JSONQuery/output.h','''    for(i=0; i<MAX_OUTPUT; i++)
    {
        if(output->element[i]!=NULL) free''','''    for(i=0; i<=output->count; i++)
    {
        if(output->element[i]!=NULL) free''')],
 needs='releasing a result list (or the candidate list of a filter) that is not full',
 breaks='the unused entries of a released list stay allocated',
 files={'h.c':HEAP.replace('LIMIT','1000000')},
 demo='''build h.c
printf '%s' '{"a":[1,2,3]}' > "$T/in.json"
timeout 100 "$T/q" s '$.a[*]' "$T/in.json" > /dev/null || exit 1
'''),
dict(id='s26',property='J19',edits=[('JSONPathParser/jsonpath_evaluator.h','''            strcpy(name, node->left->string);
            strcat(name, ".");
            strcat(name, node->right->string);
            free(node->left->string);
            free(node->right->string);''','''            char* tail = node->right->string;
            free(node->right->string);
            strcpy(name, node->left->string);
            strcat(name, ".");
            strcat(name, tail);
            free(node->left->string);''')],
 needs='a filter with a property path of two steps',
 breaks='the name of the condition is built from released memory',
 demo='''build q.c
check s '$.a[?(@.details.numberofpages > 3)].y' '{"a":[{"details":{"numberofpages":5},"y":1},{"details":{"numberofpages":2},"y":2}]}' 'n=1
1
'
'''),
dict(id='s27',property='J19',edits=[('JSONQuery/file_partition.h','if(stream[i]!=NULL) free(stream[i]);','if(stream[i]!=NULL && stream[i][0]==\'"\') free(stream[i]);')],
 needs='parallel evaluation, whose first chunk starts with a bracket and not with a quote',
 breaks='the copy of the first chunk is never released',
 files={'h.c':HEAP.replace('LIMIT','100000')},
 demo='''build h.c
python3 - "$T/in.json" <<'P'
import sys
open(sys.argv[1],'w').write('{"a":['+','.join('{"b":%d,"c":"%s"}'%(i,'x'*100) for i in range(20000))+']}')
P
timeout 200 "$T/q" p4 '$.a[3].b' "$T/in.json" > /dev/null || exit 1
'''),
]
