P='JSONQuery/parallel_automata_execution.h'
SLOW='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
/* the thread number given by SLOW starts half a second late */
typedef struct { void* (*f)(void*); void* a; int n; } Late;
static int started;
static void* late(void* p) { Late* l = p; if(getenv("SLOW")&&atoi(getenv("SLOW"))==l->n) usleep(500000); return l->f(l->a); }
static int slow_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
    Late* l = malloc(sizeof(Late)); l->f = f; l->a = a; l->n = started++;
    return pthread_create(t, at, late, l);
}
#define pthread_create slow_create
#include "q.c"
'''
GEN='''
python3 - "$T/in.json" <<'P'
import sys
open(sys.argv[1],'w').write('{"r":['+','.join('{"id":%d,"a":"%s"}'%(i,'x'*(i%7)) for i in range(400))+']}')
P
python3 -c "for i in range(400): print(i)" > "$T/want"
'''
SCAN='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "lexing.h"
static int bad;
static void* scan(void* p)
{
    char c = *(char*)p;
    int n = 600, k = 2000, i; char* t = malloc((long)n*(k+3)+3); char* q = t;
    *q++ = '[';
    for(i = 0; i<n; i++) { *q++ = '"'; memset(q, c, k); q += k; *q++ = '"'; *q++ = i==n-1 ? ']' : ','; }
    *q = 0;
    Lexer* l = malloc(sizeof(Lexer)); memset(l, 0, sizeof(Lexer)); initLexer(l, t);
    while(1)
    {
        Token tk = nextToken(l);
        if(tk.token_type==END) break;
        if(tk.token_type==PRI)
            for(i = 1; i<=k; i++) if(tk.content[i]!=c) bad = 1;
    }
    return NULL;
}
int main()
{
    pthread_t t[4]; char c[4] = {'a', 'b', 'c', 'd'}; int i, r;
    for(r = 0; r<10&&!bad; r++)
    {
        for(i = 0; i<4; i++) pthread_create(&t[i], NULL, scan, &c[i]);
        for(i = 0; i<4; i++) pthread_join(t[i], NULL);
    }
    return bad;
}
'''
TAB='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "path_processor.h"
int main(int argc, char** argv)
{
    PathProcessor* pp = createPathProcessor("$.a[*].d");
    FILE* f = fopen(argv[1], "w"); int i, k;
    fprintf(f, "{\\"a\\":[");
    for(i = 0; i<300; i++) fprintf(f, "%s{\\"b\\":%d,\\"c\\":[1,2],\\"d\\":%d}", i?",":"", i, i);
    fprintf(f, "]}"); fclose(f);
    ConstraintTable* ct = collectDataConstraints(pp, argv[1]);
    ConstraintTable* was = malloc(sizeof(ConstraintTable)); memcpy(was, ct, sizeof(ConstraintTable));
    parallelRunOpt(pp, argv[1], 4, ct);
    int bad = was->num_constraint_info!=ct->num_constraint_info;
    for(i = 0; i<ct->num_constraint_info; i++)
    {
        if(was->constraint_info[i].type!=ct->constraint_info[i].type||was->constraint_info[i].num_state!=ct->constraint_info[i].num_state) bad = 1;
        else if(was->constraint_info[i].type==KY&&strcmp(was->constraint_info[i].token_name, ct->constraint_info[i].token_name)) bad = 1;
        for(k = 0; k<was->constraint_info[i].num_state; k++) if(was->constraint_info[i].state_set[k]!=ct->constraint_info[i].state_set[k]) bad = 1;
    }
    fflush(stdout);
    if(bad) fprintf(stderr, "the learned constraints changed during the run\\n");
    _Exit(bad);
}
'''
SEEDS=[
dict(id='s19',property='J14',edits=[(P,"    for (i = 0; i <num_cores; i++)\n","    for (i = 1; i <num_cores; i++)\n")],
 needs='the first worker must still be running when all others have finished',
 breaks='the first thread is not awaited before the results of the chunks are merged',
 files={'slow.c':SLOW},
 demo='''build q.c'''.replace('build q.c','# build q.c: slow.c includes it\nbuild slow.c')+GEN+'''
for n in 9 0 3; do
  SLOW=$n timeout 100 "$T/q" p4 '$.r[*].id' "$T/in.json" 2>/dev/null | sed '0,/^n=/d' > "$T/got"
  cmp -s "$T/want" "$T/got" || { echo "other results when thread $n is late"; exit 1; }
done'''),
dict(id='s20',property='J14',edits=[('JSONQuery/constraint.h',"""                    j++;
                }                
                break;""","""                    j++;
                }                
                if(i>0)  //frequent keys move to the front
                {
                    ConstraintInfo hit = ct->constraint_info[i];
                    ct->constraint_info[i] = ct->constraint_info[i-1];
                    ct->constraint_info[i-1] = hit;
                }
                break;""")],
 needs='two workers looking up learned constraints of keys at the same time',
 breaks='looking up a key reorders the constraint table that all workers share',
 files={'tab.c':TAB},
 demo='''build tab.c
timeout 100 "$T/q" "$T/t.json" >/dev/null || exit 1'''),
dict(id='s21',property='J14',edits=[('JSONQuery/lexing.c',"    char sub1[MAX_PRIMITIVE];","    static char sub1[MAX_PRIMITIVE];  //too large for the stack of a thread")],
 needs='two workers reading a key or value at the same time',
 breaks='all workers assemble token texts in one shared buffer',
 files={'scan.c':SCAN},
 demo='''build scan.c
timeout 200 "$T/q" >/dev/null || { echo "texts of different workers are mixed up"; exit 1; }'''),
dict(id='s22',property='J14',edits=[(P,"    	if (rc)\n","    	if (rc && i > 0)\n")],
 needs='the first pthread_create fails',
 breaks='when the thread of the first chunk cannot be started its chunk is processed by nobody',
 files={'fail.c':SLOW.replace('    Late* l','    if(getenv("FAIL")&&atoi(getenv("FAIL"))==started) { started++; return 11; }\n    Late* l')},
 demo='''# build q.c: fail.c includes it
build fail.c'''+GEN+'''
for n in 9 0 2; do
  FAIL=$n timeout 100 "$T/q" p4 '$.r[*].id' "$T/in.json" 2>/dev/null | sed '0,/^n=/d' > "$T/got"
  cmp -s "$T/want" "$T/got" || { echo "other results when thread $n cannot be started"; exit 1; }
done'''),
]
