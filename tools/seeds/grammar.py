Y='JSONPathParser/parser_j.y'; L='JSONPathParser/scanner_j.l'
SEEDS=[
dict(id='s28',property='J12',edits=[(Y,"%left '+' '-'","%right '+' '-'")],
 needs='a filter with two subtractions (or a subtraction followed by an addition) without parentheses',
 breaks='a - b - c is computed as a - (b - c)',
 demo='''build q.c
check s '$.a[?(@.x - 2 - 1 > 1)].y' '{"a":[{"x":3,"y":1},{"x":5,"y":2}]}' 'n=1
2
'
'''),
dict(id='s29',property='J12',edits=[(L,'{NCNameStartChar}({NCNameChar})*','{NCNameStartChar}({NCNameChar}|"-"{NCNameStartChar})*')],
 needs='a filter that subtracts one property from another without blanks around the minus',
 breaks='@.b-c is read as one name',
 demo='''build q.c
check s '$.a[?(@.b-1 > @.c)].y' '{"a":[{"b":3,"c":1,"y":1},{"b":1,"c":5,"y":2}]}' 'n=1
1
'
check s '$.a[?(1-@.c < 0)].y' '{"a":[{"b":3,"c":1,"y":1},{"b":1,"c":5,"y":2}]}' 'n=1
2
'
build l.c
timeout 20 "$T/q" '$.a[?(@.b-c > 1)]' > /dev/null 2>&1 && { echo "b-c is one name"; exit 1; }
''',files={'l.c':'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "jsonpath_model.h"
#include "jsonpath_parser.h"
/* b-c is not a name: the bare c after the minus is no operand */
int main(int argc, char** argv) { return analysisJSONPath(argv[1])==NULL; }
'''}),
dict(id='s30',property='J12',edits=[('JSONPathParser/jsonpath_evaluator.h','            strcat(name, ".");\n','            if(strchr(name, \'.\')==NULL) strcat(name, ".");\n')],
 needs='a filter condition on a property path of three or more steps',
 breaks='the third step is glued to the second, so the condition names another member',
 demo='''build q.c
check s '$.a[?(@.p.q.r > 3)].y' '{"a":[{"p":{"q":{"r":5}},"y":1},{"p":{"q":{"r":2}},"y":2}]}' 'n=1
1
'
'''),
]
