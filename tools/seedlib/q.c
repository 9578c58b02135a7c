/* q MODE PATH FILE: runs one query and prints its results, one per line. MODE: s (serial), pN (N workers), oN (N workers, learned constraints) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "path_processor.h"
int main(int argc, char** argv)
{
    PathProcessor* pp = createPathProcessor(argv[2]);
    if(pp==NULL) { printf("no query\n"); return 3; }
    Output* out = NULL;
    if(argv[1][0]=='s') out = serialRun(pp, argv[3]);
    else if(argv[1][0]=='p') out = parallelRun(pp, argv[3], atoi(argv[1]+1));
    else
    {
        ConstraintTable* ct = collectDataConstraints(pp, argv[3]);
        out = parallelRunOpt(pp, argv[3], atoi(argv[1]+1), ct);
    }
    int n = out==NULL ? 0 : getOutputSize(out);
    printf("n=%d\n", n);
    int i;
    for(i = 0; i<n; i++) printf("%s\n", out->element[i]);
    fflush(stdout);
    _Exit(0);
}
