PP='JSONQuery/path_processor.h'
DRV='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include "path_processor.h"
static int border_ok(const char* all, long pos, long len)
{
    if(pos==0||pos==len) return 1;
    if(all[pos]!='"') return 0;
    long k = pos-1;
    while(k>=0&&isspace((unsigned char)all[k])) k--;
    return k>=0&&(all[k]==','||all[k]=='{'||all[k]=='[');
}
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[2], "rb"); char* all = calloc(1, 1<<20); long len = fread(all, 1, (1<<20)-1, f); fclose(f);
    long pos = 0; int bad = 0;
    if(argv[1][0]=='p')
    {
        PartitionInfo p = partitionInputStream(all, atoi(argv[1]+1));
        for(int i = 0; i<p.num_chunk; i++)
        {
            long n = strlen(p.stream[i]);
            if(pos+n>len||memcmp(all+pos, p.stream[i], n)) bad = 1;
            pos += n;
            if(!border_ok(all, pos, len)) bad |= 2;
        }
    }
    else
    {
        int start = 0; char* s;
        while((s = loadBoundedInputStream(argv[2], &start))!=NULL)
        {
            long n = strlen(s);
            if(pos+n>len||memcmp(all+pos, s, n)) bad = 1;
            pos += n;
            if(!border_ok(all, pos, len)) bad |= 2;
        }
    }
    if(pos!=len) bad |= 4;
    fflush(stdout);
    fprintf(stderr, "bad=%d\\n", bad);
    _Exit(bad);
}
'''
SEEDS=[
dict(id='s12',property='J17',edits=[(PP,"if(prev==','||prev=='{'||prev=='[')","if(prev==','||prev=='{'||prev=='['||prev==':')",1)],
 needs='a chunk border that falls between a key with its colon and a string value',
 breaks='the input is cut between a key and its string value',
 files={'part.c':DRV},
 demo='''build part.c
printf '%s' '{"a": "bcdefghij", "k": "lmnopqrstuvw", "x": {"y": "zzzz", "w": [1, "two", "three"]}, "last": "one"}' > "$T/in"
for n in 1 2 3 4 5 6 7 8 9 12 20; do "$T/q" p$n "$T/in" >/dev/null || exit 1; done'''),
dict(id='s13',property='J17',edits=[(PP,"    int next = loaded_size+size+add;\n    *(start_pos) = next;","    *(start_pos) = ftell(fp);")],
 needs='an input larger than one portion',
 breaks='the quote that was read to find the border is skipped at the start of the next portion',
 files={'part.c':DRV},
 demo='''cp -r JSONQuery "$T/J"
sed -i 's/#define MEMORY_FOOTPRINT .*/#define MEMORY_FOOTPRINT 40/' "$T/J/path_processor.h"
I="-I$T/J $I"
build part.c
printf '%s' '{"a": "bcdefghij", "k": "lmnopqrstuvw", "x": {"y": "zzzz", "w": [1, "two", "three"]}, "last": "one", "more": [{"a": 1}, {"b": 2}]}' > "$T/in"
"$T/q" l "$T/in" >/dev/null || exit 1'''),
]
