LX='JSONQuery/lexing.c'
UT='JSONQuery/utility.c'
SEEDS=[
dict(id='s08',property='J01',edits=[(LX,'''                            while(*pointer=='\\\\'){
                                count++;
                                --pointer;
                            }''','''                            while(*pointer=='\\\\' && count<3){
                                count++;
                                --pointer;
                            }''')],
 needs='a string that ends with four backslashes',
 breaks='runs of backslashes longer than three are miscounted, so the closing quote is taken for an escaped one',
 demo='''build q.c
check s '$.b' '{"a":"x\\\\\\\\\\\\\\\\","b":3}' 'n=1
3
'
check s '$.b' '{"a":"x\\\\\\"","b":4}' 'n=1
4
\''''),
dict(id='s09',property='J01',edits=[(LX,'''                            lexer->lex_state = 0; 
                            lexer->next_start = p+1; 
                            token.token_type = PRI;''','''                            lexer->lex_state = 0; 
                            lexer->next_start = (*(p+1)==',') ? p+2 : p+1; 
                            token.token_type = PRI;''')],
 needs='a string followed by a comma inside an array (the comma advances the element index)',
 breaks='the comma behind a string value is not reported',
 demo='''build q.c
cat > "$T/l.c" <<'EOF'
#include <stdio.h>
#include <string.h>
#include "lexing.h"
int main(void){ Lexer l; char s[]="[\\"a\\",\\"b\\",1]"; initLexer(&l, s); int n=0,c=0; for(;;){ Token t=nextToken(&l); if(t.token_type==END) break; n++; if(t.token_type==COM) c++; } printf("%d %d\\n",n,c); return !(n==7&&c==2); }
EOF
gcc -std=gnu99 -w $I "$T/l.c" JSONQuery/*.c -o "$T/l" _build/lib/libDFABuilder.a _build/lib/libJSONPathParser.a -lstdc++ -lpthread -lm || exit 9
"$T/l" || exit 1
'''),
dict(id='s10',property='J02',edits=[(UT,'''	for(i=0;i<=length;i++)
	{
		dest[i]=src[i];
	}
	dest[i]='\\0';''','''	for(i=0;i<length;i++)
	{
		dest[i]=src[i];
	}
	dest[i]='\\0';''')],
 needs='a long string value followed by a shorter one (the scanner lengthens its text by one byte in place)',
 breaks='the second terminator the scanner relies on is missing, bytes of an earlier text are appended to a string value',
 demo='''build q.c
check s '$.b' '{"a":"xxxxxxxxxxxx","b":"y"}' 'n=1
"y"
\''''),
dict(id='s11',property='J02',edits=[(LX,'''                        else substring_in_place(sub1, token_pointer, 0, tempcount);''','''                        else substring_in_place(sub1, token_pointer, 0, tempcount>20?20:tempcount);''')],
 needs='a number with more than 20 characters',
 breaks='the text of long numbers is cut off',
 demo='''build q.c
check s '$.b' '{"b":1234567890.123456789012345}' 'n=1
1234567890.123456789012345
\''''),
]
