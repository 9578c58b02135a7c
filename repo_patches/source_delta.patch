From 2a82adda89984ea112800b8da622ca5490f196cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:19 +0000
Subject: [PATCH 01/43] fix: popping an empty query stack returns a fully set
 element

---
 JSONQuery/stack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/stack.h b/JSONQuery/stack.h
index 4d8b0be..dc6b842 100644
--- a/JSONQuery/stack.h
+++ b/JSONQuery/stack.h
@@ -79,6 +79,7 @@ static inline QueryStackElement queryStackPop(QueryStack* qs)
         QueryStackElement exception;
         exception.query_state = INVALID;
         exception.count = 0;
+        exception.matched_start = INVALID;
         top_state = exception;
     }
     return top_state;
-- 
2.43.0


From a2683451d9c91b6293ac1e7ffdb8fdb2bfdb4a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:05 +0000
Subject: [PATCH 02/43] fix: a learned key never matches the entry of arrays

---
 JSONQuery/constraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..5181076 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -44,7 +44,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +90,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
-- 
2.43.0


From e32e355e243bf85f3115624d5b356cdefbb75bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 03/43] fix: the text of a primitive starts at its first and
 ends before its delimiter

---
 JSONQuery/lexing.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..ca2c9de 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,12 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z'))
+                        {
+                            start = p;
+                            token_pointer = p;
+                            state = 2;
+                        }
                         else
                         {
                             token_len = p - start + 1;
-- 
2.43.0


From dab0c86e2d268e144662428a2ca3b79cf115e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 04/43] fix: negative numbers keep their sign

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ca2c9de..6a34480 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,7 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z'))
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z'))
                         {
                             start = p;
                             token_pointer = p;
-- 
2.43.0


From f5658c6c240959e572f86265571d5bab7fbc783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 05/43] fix: line breaks end primitives and may stand between a
 key and its colon

---
 JSONQuery/lexing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 6a34480..1e17b27 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -125,7 +125,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
@@ -176,6 +176,8 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         int tempcount = p-start;
                         templen = tempcount; 
-- 
2.43.0


From b1fcc9b37e29c1cee9872c476fba20ff94048414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 06/43] fix: copied text does not shift when the stream starts
 with blanks

---
 JSONQuery/utility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -28,7 +28,6 @@ char* substring(char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     char* temp1=NULL; 
     temp1=(char*)malloc((end-begin+1)*sizeof(char));
     for (j = 0,i = begin; i < end; i++,j++)
@@ -48,7 +47,6 @@ void substring_in_place(char* desc, char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     for (j = 0,i = begin; i < end; i++,j++)
     {
         desc[j]=temp[i];
-- 
2.43.0


From fd881c24c45f081deb6b21b0fed9b37921b1428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 07/43] fix: nothing unset is read when the automata are
 destroyed

---
 JSONQuery/parallel_automata_execution.h | 1 +
 JSONQuery/path_processor.h              | 5 ++++-
 JSONQuery/streaming_automaton.h         | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..a0e7ae2 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,6 +46,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..a621c64 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -182,6 +182,9 @@ static inline void initStreamingContext(StreamingContext* ci)
 {
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
+    ci->sa.tuple_list = NULL;
+    ci->pa.tuple_list = NULL;
+    ci->pa.major_automaton = NULL;
 }
 
 static inline void destroyStreamingContext(StreamingContext* ci)
@@ -190,7 +193,7 @@ static inline void destroyStreamingContext(StreamingContext* ci)
     destroyParallelAutomata(&(ci->pa));
     ci->sa.finish_flag = FINISH; 
     destroyStreamingAutomaton(&(ci->sa)); 
-    destroyPredicateFilter(&(ci->pf));
+    if(ci->context_flag == CONTEXT) destroyPredicateFilter(&(ci->pf));
 }
 
 // when input size might exceed the memory limit
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..12613e6 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -44,6 +44,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
-- 
2.43.0


From d261c22de06b3e8c1a4f4e70c130265daf0a2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:33 +0000
Subject: [PATCH 08/43] fix: the next input portion uses the renewed tuple
 list, not the released one

---
 JSONQuery/path_processor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index a621c64..bb134bd 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -210,7 +210,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -221,6 +220,7 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
-- 
2.43.0


From a50edc606403125401928df1f9bcf656bc64209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:13 +0000
Subject: [PATCH 09/43] fix: the last tuple list and the first worker are
 released

---
 JSONQuery/parallel_automata_execution.h | 4 +++-
 JSONQuery/path_processor.h              | 1 +
 JSONQuery/streaming_automaton.h         | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index a0e7ae2..79b4734 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -64,7 +64,9 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
         }
         else if(pa->finish_flag==FINISH)
         {   
-            destroyWorkerAutomaton(pa->major_automaton);  
+            freeTupleList(pa->major_automaton->tuple_list);
+            freeWorkerAutomaton(pa->major_automaton);
+            pa->major_automaton = NULL;
         }
     }
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index bb134bd..706a913 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -260,6 +260,7 @@ static inline ConstraintTable* collectDataConstraints(PathProcessor* path_proces
     executeAutomaton(&streaming_automaton, input_stream, OPEN);
 
     //free up dynamic memories
+    streaming_automaton.finish_flag = FINISH;
     destroyStreamingAutomaton(&streaming_automaton);
     free(input_stream);
     return streaming_automaton.constraint_table;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 12613e6..9f7ff0a 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -49,7 +49,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
-    if(sa->tuple_list != NULL && sa->finish_flag == INPROGRESS)
+    if(sa->tuple_list != NULL)
     {   
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
-- 
2.43.0


From 0b3357509a9aded3c0ef8b4a09305a575e237bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 10/43] fix: temporary copies of matched objects and arrays are
 released

---
 JSONQuery/parallel_automata_execution.h | 2 ++
 JSONQuery/streaming_automaton.c         | 2 ++
 JSONQuery/worker_automaton.c            | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 79b4734..7a353e3 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -186,6 +186,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -237,6 +238,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..52adbf5 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -190,6 +190,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, output_text);
+                    free(output_text);
                 }
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
@@ -253,6 +254,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
                         addTuple(tl, top_qs_elt.query_state, output_text);  
+                        free(output_text);
                     }
                     //syntax stack only has one '['
                     if(syntaxStackSize(ss) == 1)  
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..23dcad7 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -228,6 +228,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                     if(wa->id==0){
                                         char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        free(output_text);
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
@@ -391,6 +392,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 if(wa->id==0){
                                     char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
-- 
2.43.0


From 72bfaaeab2fa163ee72911256fcb7dcb6470fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 11/43] fix: the buffer of a merged array has room for its
 closing bracket

---
 JSONQuery/parallel_automata_execution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 7a353e3..c86d7a6 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -232,7 +232,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
                                 int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
+                                int right_len = us.index+1;
                                 int strlen = left_len+right_len;
                                 char* object_text = (char*)malloc((strlen+1)*sizeof(char));
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-- 
2.43.0


From 08a447864b29c4a9334c933c26f6a7f3f6c245cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 12/43] fix: a missing or exhausted input file is closed and
 reported as missing, byte 255 is not the end

---
 JSONQuery/path_processor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 706a913..87a9d9d 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -53,13 +53,13 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0) { fclose(fp); return NULL;}
     fseek(fp, loaded_size, SEEK_CUR);
     char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
     fread(stream,1,size,fp);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
+    int ch = fgetc(fp);
     while(1)
     {    
         if(ch==EOF) break;
@@ -248,6 +248,7 @@ static inline Output* serialRun(PathProcessor* path_processor, char* file_name)
 static inline ConstraintTable* collectDataConstraints(PathProcessor* path_processor, char* file_name)
 {
     char* input_stream = loadInputStream(file_name);
+    if(input_stream == NULL) return NULL;
 
     JSONQueryDFAContext* ctx = path_processor->query_context;
     JSONQueryDFA* dfa = path_processor->query_automaton;
-- 
2.43.0


From 0d2569382949acc120c542d0387039415bbf7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 13/43] fix: splitting the input stops at its end, leaves no
 empty chunk and fits its buffers

---
 JSONQuery/path_processor.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 87a9d9d..78b7c27 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -105,12 +105,12 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
+        stream[i] = (char*)malloc((stream_size-sum_size+2)*sizeof(char)); 
         substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
         sum_size += chunk_size; 
         int add = 0;
         //look for the next complete token
-        while(sum_size<=stream_size)
+        while(sum_size+add<stream_size)
         {    
             ch = input_stream[sum_size+add];
             if(ch=='"')
@@ -142,7 +142,6 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
         stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 2c9bd752cf84d212d8d2b583ba6d5aa2b83664cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 14/43] fix: the chunk table is released with its chunks

---
 JSONQuery/file_partition.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..69af815 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -21,6 +21,7 @@ static inline void freeInputChunks(PartitionInfo pInfo)
     {
         if(stream[i]!=NULL) free(stream[i]);
     }
+    free(stream);
 }
 
 static inline void printChunk(char** stream, int num_core)
-- 
2.43.0


From e50d9c05c5710c3935f5a19460ee30dcf5fbca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 15/43] fix: a loaded portion has room for the token it is
 extended by

---
 JSONQuery/path_processor.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 78b7c27..90320cd 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -55,7 +55,8 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         size = MEMORY_FOOTPRINT;
     if(size<=0) { fclose(fp); return NULL;}
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
     fread(stream,1,size,fp);
     int add = 0;
     //look for the next complete token
@@ -77,6 +78,11 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
                 break;
             }
         }
+        if(size+add+1>=capacity)
+        {
+            capacity += MAX_EXTENSION;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
+        }
         stream[size+add] = ch; 
         add = add+1;
         ch = fgetc(fp);
-- 
2.43.0


From 6772b3320f8bd05fceee90867e3e616c95236999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 16/43] fix: file partitions fit their buffers, leave no empty
 chunk and release the file and temporary copies

---
 JSONQuery/file_partition.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..530213c 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -15,6 +15,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     FILE *fp; 
     long file_size, chunk_size;
     fp = fopen(file_name,"rb");
+    pInfo.stream = NULL;
     if (fp==NULL) { return pInfo;}
     fseek (fp, 0, SEEK_END);
     file_size = ftell(fp);
@@ -26,10 +27,10 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
+    int ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
+        stream[i] = (char*)malloc((file_size-sum_size+chunk_size+2)*sizeof(char));
         if(ch!=-1)
         {
             stream[i][0]=ch;
@@ -38,6 +39,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
             fread (buff,1,chunk_size-1,fp); 
             buff[chunk_size-1]='\0'; 
             stream[i]=strcat(stream[i],buff); 
+            free(buff);
         }
         else fread (stream[i],1,chunk_size,fp);
         int add = 0;
@@ -72,7 +74,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     long remain_size = file_size-sum_size;
     if(remain_size>0)
     {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
+        stream[i] = (char*)malloc((remain_size+1)*sizeof(char));
         if(ch!=-1)
         {
             stream[i][0]=ch;
@@ -81,6 +83,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
             fread (buff,1,remain_size-1,fp);
             buff[remain_size-1]='\0';
             stream[i]=strcat(stream[i],buff);
+            free(buff);
             stream[i][remain_size] = '\0'; 
         }
         else{
@@ -89,7 +92,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
         }
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
+    fclose(fp);
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 70837ad4f95fc8a4ec4fab32c228e083b94632b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 17/43] fix: the candidate buffer of a filter is released
 completely

---
 JSONQuery/predicate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..52a4a47 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -103,7 +103,7 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
-- 
2.43.0


From 4490dfe911cdccaf4beef9c8e8dd3860f9fb5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 18/43] fix: a worker without constraints has no constraint
 table

---
 JSONQuery/worker_automaton.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..172f9ed 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -71,6 +71,7 @@ static inline WorkerAutomaton* createWorkerAutomaton(JSONQueryDFA* qa, int threa
     WorkerAutomaton* wa = (WorkerAutomaton*)malloc(sizeof(WorkerAutomaton));
     wa->id = thread_id;
     initWorkerAutomaton(wa, qa);
+    wa->constraint_table = NULL;
     if(ct==NULL) wa->constraint_flag = CLOSE;
     else
     {
-- 
2.43.0


From b1b282e123a5c438f6ed86bf4d66f11534461abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:08 +0000
Subject: [PATCH 19/43] fix: looking back for a border stops at the start of
 the chunk

---
 JSONQuery/file_partition.c | 2 +-
 JSONQuery/path_processor.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 530213c..6995b6f 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -52,7 +52,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
             {
                 char prev = stream[i][chunk_size+add-1];
                 int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+                while((prev==' '||prev=='\t'||prev=='\n'||prev==13)&&t<=chunk_size+add)
                 {
                     prev = stream[i][chunk_size+add-t]; 
                     t++;
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 90320cd..b7397e5 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -68,7 +68,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         {
             char prev = stream[size+add-1];
             int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+            while((prev==' '||prev=='\t'||prev=='\n'||prev==13)&&t<=size+add)
             {
                 prev = stream[size+add-t]; 
                 t++;
@@ -123,7 +123,7 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
             {
                 char prev = stream[i][chunk_size+add-1];
                 int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
+                while((prev==' '||prev=='\t'||prev=='\n'||prev==13)&&t<=chunk_size+add)
                 {
                     prev = stream[i][chunk_size+add-t]; 
                     t++;
-- 
2.43.0


From 94c1be886f0c697692474853517e64294cbe98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 20/43] fix: order comparisons and arithmetic in filters apply
 to numbers only

---
 JSONPathParser/jsonpath_evaluator.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..1e2030a 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -82,7 +82,8 @@ static inline JSONPathValue computeUnaryOperator(JSONPathOperatorType opt, JSONP
 */
 
 static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSONPathValue v1, JSONPathValue v2) {
-    JSONPathValue v;
+    JSONPathValue v = {jvt_null};
+    bool numbers = (v1.vtype == jvt_number && v2.vtype == jvt_number);
     // type casting
     if (opt == jot_or || opt == jot_and) {
         v1 = computeTypeCast(v1);
@@ -118,37 +119,42 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_less:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number < v2.number);
+            v.boolean = numbers && (v1.number < v2.number);
             return v;
         case jot_greater:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number > v2.number);
+            v.boolean = numbers && (v1.number > v2.number);
             return v;
         case jot_leq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number <= v2.number);
+            v.boolean = numbers && (v1.number <= v2.number);
             return v;
         case jot_geq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number >= v2.number);
+            v.boolean = numbers && (v1.number >= v2.number);
             return v;
         case jot_add:
+            if (!numbers) return v;
             v.vtype = jvt_number;
             v.number = (v1.number + v2.number);
             return v;
         case jot_minus:
+            if (!numbers) return v;
             v.vtype = jvt_number;
             v.number = (v1.number - v2.number);
             return v;
         case jot_multiply:
+            if (!numbers) return v;
             v.vtype = jvt_number;
             v.number = (v1.number * v2.number);
             return v;
         case jot_div:
+            if (!numbers) return v;
             v.vtype = jvt_number;
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
+            if (!numbers || (long long int)(v2.number) == 0) return v;
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
-- 
2.43.0


From 23b967f8bea5e81389648b3becebc5188efa85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 21/43] fix: recognise negative numbers in filter conditions

---
 JSONPathParser/jsonpath_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 1e2030a..2b3980d 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -189,7 +189,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || (str[0] == '-' && isdigit(str[1]))) {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From dc0c397abf400825a189384d182dbb9f0a558074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 22/43] fix: release the condition table of an evaluated filter

---
 JSONPathParser/jsonpath_evaluator.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 2b3980d..b246d83 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -208,6 +208,13 @@ static inline JSONPathKeyValuePair* createTableFromConditions(PredicateCondition
     return table;
 }
 
+static inline void destroyConditionTable(JSONPathKeyValuePair* table) {
+    for (int i = 0; table[i].key != NULL; ++i) {
+        if (table[i].value.vtype == jvt_string) free(table[i].value.string);
+    }
+    free(table);
+}
+
 static inline void clearPredicateCondtion(PredicateCondition* table) {
     int i = 0;
     while (table[i].name != NULL) {
@@ -257,8 +264,9 @@ static inline JSONPathValue calculateExpression(ASTNode* node, JSONPathKeyValueP
  */
 static inline bool evaluateExpression(ASTNode* node, PredicateCondition* conditions) {
     JSONPathKeyValuePair* table = createTableFromConditions(conditions);
-    JSONPathValue v = calculateExpression(node, table);
-    return computeTypeCast(v).boolean;
+    JSONPathValue v = computeTypeCast(calculateExpression(node, table));
+    destroyConditionTable(table);
+    return v.boolean;
 }
 
 
-- 
2.43.0


From 6ba119cdc9ee87d31ee85a4dc5dc11eeb071d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:48 +0000
Subject: [PATCH 23/43] fix: keep the filter conditions of nested elements
 apart

---
 JSONQuery/predicate.c | 10 ++++++----
 JSONQuery/predicate.h | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..96b3495 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -40,6 +40,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             PredicateStackElement ps_elt;
             ps_elt.predicate_state = state;
             ps_elt.output_buffer_pointer = getOutputSize(buffer);
+            ps_elt.conditions = createPredicateConditions(pf, state);
             pushPredicateStack(&ps, ps_elt);
         }
         //ending position of an object, needs to evaluate predicate conditions
@@ -47,7 +48,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
             int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
+            PredicateCondition* pc = ps_elt.conditions;
             ASTNode* node = getContextSubtree(pf->ctx, pred_state);
             //evaluate predicate conditions 
             bool v = evaluateExpression(node, pc); 
@@ -69,15 +70,15 @@ Output* generateFinalOutput(PredicateFilter* pf)
             }  
             //clear the last few elements into buffer
             else removeOutputElement(buffer, rmv_num); 
-            //set the value of evaluate table to default value
+            //release the conditions of this element
             clearPredicateCondtion(pc);
+            free(pc);
             popPredicateStack(&ps); 
         }
         else if(getPredicateStackSize(&ps)>0)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
-            int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
+            PredicateCondition* pc = ps_elt.conditions;
         
             //check whether the current state is a predicate condition
             ASTNode* node = getContextSubtree(pf->ctx, state);
@@ -91,6 +92,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             //update value for predicate condition
             if(node!=NULL&&pc[index].name!=NULL)
             {  
+                if(pc[index].text!=NULL) free(pc[index].text);
                 pc[index].text = allocate_and_copy(text); 
             }
             else //add candidate output into buffer
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 52a4a47..b89332b 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -15,6 +15,8 @@ typedef struct PredicateStackElement{
     int predicate_state;  
     //point to the first candidate
     int output_buffer_pointer;  
+    //condition list of the element itself
+    PredicateCondition* conditions;
 }PredicateStackElement;
 
 typedef struct PredicateStack{
@@ -94,6 +96,21 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     pf->finish_flag = INPROGRESS;
 }
 
+//creates the condition list for one element, none of its conditions is known yet
+static inline PredicateCondition* createPredicateConditions(PredicateFilter* pf, int pred_state)
+{
+    PredicateCondition* names = pf->predicate_conditions[pred_state];
+    int size = 0;
+    while(names[size].name!=NULL) size++;
+    PredicateCondition* pc = (PredicateCondition*)malloc((size+1)*sizeof(PredicateCondition));
+    for(int i = 0; i<=size; i++)
+    {
+        pc[i].name = names[i].name;
+        pc[i].text = NULL;
+    }
+    return pc;
+}
+
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
     for(int i = 0; i<MAX_PREDICATE_STATE; i++)
@@ -103,6 +120,13 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
+    //elements which have not been closed
+    while(getPredicateStackSize(&pf->pstack)>0)
+    {
+        PredicateStackElement ps_elt = popPredicateStack(&pf->pstack);
+        clearPredicateCondtion(ps_elt.conditions);
+        free(ps_elt.conditions);
+    }
     if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
-- 
2.43.0


From 154911e9d23c33dd7495c21e90f57a6cf6a19ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:47 +0000
Subject: [PATCH 24/43] fix: a chunk whose thread cannot be started is
 processed by the caller

---
 JSONQuery/parallel_automata_execution.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index c86d7a6..7089dc5 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -370,6 +370,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
+    int started[MAX_THREAD]; 
     int i;
     for(i = 0; i<num_cores; i++)
     {
@@ -382,12 +383,16 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
     	if (rc)
         {
+            //without a thread of its own, the chunk is processed right here
             printf("ERROR; return code is %d\n", rc);
-            return 0;
+            main_thread(&ti[i]);
         }
+        started[i] = (rc==0);
     }
     for (i = 0; i <num_cores; i++)
-        pthread_join(ti[i].thread, NULL);
+    {
+        if(started[i]) pthread_join(ti[i].thread, NULL);
+    }
     printf("worker automata: finish parallel query processing\n");
     TupleList* tl = combine(ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
-- 
2.43.0


From 6acede943ccf2d459b6b56f6e8dafe101313a271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:08 +0000
Subject: [PATCH 25/43] fix: freeing a path processor releases its compiled
 query and context

---
 DFABuilder/include/dfa.h         | 1 +
 DFABuilder/include/dfa_builder.h | 8 ++++++++
 JSONQuery/path_processor.h       | 6 ++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..ab8ce6c 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -50,6 +50,7 @@ static inline JSONQueryDFA* createJSONQueryDFA(uint32_t states_num, uint32_t inp
 static inline void destoryJSONQueryDFA(JSONQueryDFA* dfa) {
     if (dfa->table) free(dfa->table);
     if (dfa->stop_state) free(dfa->stop_state);
+    if (dfa->accept_type) free(dfa->accept_type);
     if (dfa->array_index) free(dfa->array_index);
     if (dfa->names) {
         for (int i = 0; i < dfa->inputs_num; ++i) 
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..0b56f51 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -28,6 +28,14 @@ extern JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFACo
 
 // extern JSONQueryDFA* buildJSONQueryDFAMultipleFromAST(int num, ASTNode* json_path[]);
 
+static inline void destroyJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
+    for (int i = 0; i < ctx->states_num; ++i)
+        if (ctx->states_mapping[i].value) free(ctx->states_mapping[i].value);
+    free(ctx->states_mapping);
+    free(ctx->array_predicate_states.value);
+    free(ctx->subtrees);
+}
+
 static inline ASTNode* getContextSubtree(JSONQueryDFAContext* ctx, int stop_state) {
     return ctx->subtrees[stop_state];
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index b7397e5..c1c0548 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -162,7 +162,7 @@ static inline PathProcessor* createPathProcessor(char* path)
 {
      JSONQueryDFAContext* ctx = (JSONQueryDFAContext*)malloc(sizeof(JSONQueryDFAContext)); 
      JSONQueryDFA* dfa = buildJSONQueryDFA(path, ctx);
-     if (dfa == NULL) return NULL;
+     if (dfa == NULL) { free(ctx); return NULL; }
      PathProcessor* path_processor = (PathProcessor*)malloc(sizeof(PathProcessor));
      path_processor->query_context = ctx;
      path_processor->query_automaton = dfa;
@@ -171,7 +171,9 @@ static inline PathProcessor* createPathProcessor(char* path)
 
 static inline void freePathProcessor(PathProcessor* path_processor)
 {
-     destoryJSONQueryDFA(path_processor->query_automaton); 
+     freeJSONQueryDFA(&path_processor->query_automaton);
+     destroyJSONQueryDFAContext(path_processor->query_context);
+     free(path_processor->query_context);
      free(path_processor);
 }
 
-- 
2.43.0


From 502a2265986eed685ca2867236b5d97f0be73ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 26/43] fix: joining the steps of a filter path does not read
 the released node

---
 JSONPathParser/jsonpath_evaluator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index b246d83..78b5b35 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -307,9 +307,10 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             free(node->left->string);
             free(node->right->string);
             free(node->right);
+            ASTNode* new_node = node->left;
+            new_node->string = name;
             free(node);
-            node->left->string = name;
-            return node->left;
+            return new_node;
         }
     }
     return NULL;
-- 
2.43.0


From 947eb96fd10d263348353d63e65573a75a46e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:42 +0000
Subject: [PATCH 27/43] fix: in filters && binds tighter than ||, and % ranks
 with * and /

---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From b4eddfefd54184aa801f34159f2bac877509d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:33 +0000
Subject: [PATCH 28/43] fix: the compiler of a path starts from defined state

---
 DFABuilder/src/dfa_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..0fd0d31 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -89,7 +89,7 @@ struct StackContext {
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
 
-    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
+    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), last_id_generated(0), input_mapping(3), array_range(0) {}
     ~StackContext() {}
 
     void push(StackElement&& s) {
-- 
2.43.0


From 90db87ffa1ae2324533866fe8ec68fe49607a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:33 +0000
Subject: [PATCH 29/43] fix: an index step selects one element instead of being
 skipped

---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 0fd0d31..77f2c85 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int index = p->number;
+                    push({set_array_index, index, index + 1});
+                    create_dfa();
+                    array_range[model->size()-1] = {index, index + 1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From 7872dcf59958188b8ee7c656bee070c440c6936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:33 +0000
Subject: [PATCH 30/43] fix: the empty range [0:0] selects nothing instead of
 every element

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 77f2c85..b3b6c45 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -241,6 +241,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // 0:0 is kept for steps without a range
+                    if (begin == 0 && end == 0) begin = end = -1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
-- 
2.43.0


From 598bf4b3d0725b75d546107600bba43e559c18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:43 +0000
Subject: [PATCH 31/43] fix: a condition without a position of its own is left
 out instead of using position -1

---
 DFABuilder/src/dfa_builder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index b3b6c45..16261a3 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -353,9 +353,13 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
+                int k = 0;
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    // a condition whose positions all belong to a later rule has none of its own
+                    int state = acc_id2state(cpd_dfa, vec[j]+1);
+                    if (state >= 0) context->states_mapping[i].value[k++] = state;
                 }
+                context->states_mapping[i].value_size = k;
             }
             if (m_dfa->accept_type[i] == DFA_PREDICATE) {
                 int k = context->array_predicate_states.value_size++;
-- 
2.43.0


From b31842dbf43442d05d2206c07c99c64d2d2854f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 32/43] fix: looking ahead in a worker keeps the text of the
 current primitive

---
 JSONQuery/worker_automaton.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 23dcad7..a9963df 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,6 +47,9 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //looking ahead must not overwrite the content of the current token
+    char content[MAX_SIZE_PRIMITIVE];
+    lexer->content = content;
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
     if(input_token_type==RCB)
-- 
2.43.0


From 24bfb4670579590943c9dc10433b4b3bf64ea18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 33/43] fix: a new unit starts as unmatched instead of with an
 unset state

---
 JSONQuery/unit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..cf7669c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
-- 
2.43.0


From 43ef54b6d79cb3c12091c11689725129e00497c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:58 +0000
Subject: [PATCH 34/43] fix: a unit beginning with a primitive records where it
 begins

---
 JSONQuery/worker_automaton.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index a9963df..d5bd0dc 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -164,6 +164,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //position right behind the previous token
+    char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -566,7 +568,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_start);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -583,6 +588,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_start = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From 3e535210e675280481de0be16ae04878011cf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 35/43] fix: an object or array element left open at the end of
 a chunk stays a match when merging

---
 JSONQuery/multi_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..ef62e8b 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -422,6 +422,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //a match begun on the root level is still open
+            if(src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
-- 
2.43.0


From a202c0d485e13e61241dad3438d678b908d78a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 36/43] fix: positions taken over when merging get their parent
 and root instead of unset ones

---
 JSONQuery/multi_stack.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index ef62e8b..3badbed 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -444,6 +444,18 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            dst_qs->node[node_index].first_tuple_index = -1;
+                            dst_qs->node[node_index].last_tuple_index = -1;
+                            //the parent is the node merged last, the root is the one it stems from
+                            int parent = dst_qs_elt->start;
+                            Range p_root_range = dst_qs->node[parent].root_range;
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = parent;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            int root = p_root_range.end==-1 ? parent : dst_qs->root_pointers[p_root_range.start];
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = root;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
-- 
2.43.0


From 66b2dc9320f1d7fbbc9d29ba9bb3ae3d669567b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 37/43] fix: merging marks the match of the closed array as
 finished, not that of its elements

---
 JSONQuery/parallel_automata_execution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 7089dc5..a9b42d1 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -237,9 +237,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 char* object_text = (char*)malloc((strlen+1)*sizeof(char));
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                addTupleInfo(&qs, top_qs_elt.start, c_node.query_state, object_text, tuple_list);
                                 free(object_text);
-                                qs.node[node_index].matched_start = INVALID;
+                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
                         }
-- 
2.43.0


From 584960165d76178db14aaef5ed30e942396e968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 38/43] fix: a match spanning several chunks is put together
 from all of them

---
 JSONQuery/parallel_automata_execution.h | 43 ++++++++++++++++++-------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index a9b42d1..92edb20 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -129,6 +129,28 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+// the text of a match that starts in one chunk and ends in a later one
+static inline char* mergedText(ThreadInfo* thread_info, int first, int start, int last, int end)
+{
+    int len = strlen(thread_info[first].input_stream)-start;
+    for(int i = first+1; i<last; i++) len += strlen(thread_info[i].input_stream);
+    char* text = (char*)malloc((len+end+1)*sizeof(char));
+    strcpy(text, thread_info[first].input_stream+start);
+    for(int i = first+1; i<last; i++) strcat(text, thread_info[i].input_stream);
+    substring_in_place(text+len, thread_info[last].input_stream, 0, end);
+    return text;
+}
+
+// remember in which chunk each open match starts
+static inline void updateStartChunks(QueryStacks* qs, int* start_chunk, int chunk)
+{
+    for(int i = 0; i<MAX_NODE; i++)
+    {
+        if(i>=qs->num_node || qs->node[i].matched_start==INVALID) start_chunk[i] = -1;
+        else if(start_chunk[i]==-1) start_chunk[i] = chunk;
+    }
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -146,6 +168,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
+    //the chunk each open match starts in
+    int start_chunk[MAX_NODE];
+    for(int i = 0; i<MAX_NODE; i++) start_chunk[i] = -1;
+    updateStartChunks(&qs, start_chunk, 0);
 
     for(int i = 1; i<num_thread; i++)
     {
@@ -179,12 +205,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = mergedText(thread_info, start_chunk[node_index], c_node.matched_start, i, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
@@ -231,12 +252,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = mergedText(thread_info, start_chunk[top_qs_elt.start], c_node.matched_start, i, us.index+1);
                                 addTupleInfo(&qs, top_qs_elt.start, c_node.query_state, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[top_qs_elt.start].matched_start = INVALID;
@@ -271,6 +287,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     syntaxStackPop(&ss);
                 }
             }
+            updateStartChunks(&qs, start_chunk, i);
 
             // find the matched paths inside the unit by using the current state
             int l = 0, tuple_index = -1;
@@ -304,6 +321,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
+                    updateStartChunks(&qs, start_chunk, i);
                     if(j==ul.count_units) merge_needed = 0;
                     continue;
                 }
@@ -354,6 +372,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
             combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            updateStartChunks(&qs, start_chunk, i);
         }
     }
     seq_wa->syntax_stack = ss;
-- 
2.43.0


From d1407a2778b5efa455b58ad00ec30f266c53ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 39/43] fix: array and primitive elements leave a mark as well
 when the range is still open

---
 JSONQuery/worker_automaton.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index d5bd0dc..27f5843 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -402,10 +402,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
@@ -448,6 +444,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 TreeNode c_node = qs.node[start_index];
                                 //increase array counter
                                 qs.node[start_index].count++;
+                                if(getMatchedType(qa,&c_node)==DFA_INCOMPLETE_INDEX)
+                                {
+                                    addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
+                                }
                                 start_index++;
                             }
                         }
@@ -581,6 +581,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {
                                 addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                             }
+                            else if(matched_type==DFA_INCOMPLETE_INDEX)
+                            {
+                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
+                            }
                             qs.node[start_index].count++;
                             start_index++;
                         }
-- 
2.43.0


From 2aeb2105b6e6589be632bb6e261a51f63b2966d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 40/43] fix: records before the range count as elements when
 merging, and only marks of the position itself are marks

---
 JSONQuery/parallel_automata_execution.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 92edb20..1aabcb6 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -341,20 +341,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
+                    //every element of the array leaves one record of its position: its match, or a mark if the position is no output
+                    if(tuple.state==query_state)
                     {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
+                        qs.node[qs_elt.start].count++;
+                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
+                        if(getDFAAcceptType(qa, query_state)!=DFA_OUTPUT_CANDIDATE) continue;
                     }
+                    if(!(counter>=lower && counter<upper)) continue;
                 }    
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
-- 
2.43.0


From 7412756a25dbd2c3b1951f6a7d084f6f11a27830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 41/43] fix: nothing matches inside an open element outside of
 the range when merging

---
 JSONQuery/parallel_automata_execution.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 1aabcb6..8e677d6 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -365,7 +365,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
+            //nothing inside of an array element outside of the range can match
+            int open_node = qs_elt.start;
+            int open_state = qs.node[open_node].query_state;
+            JSONQueryIndexPair pair = getDFAArrayIndex(qa, open_state);
+            if(!(pair.lower==0&&pair.upper==0) && !(qs.node[open_node].count>=pair.lower && qs.node[open_node].count<pair.upper))
+                qs.node[open_node].query_state = 0;
             combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            qs.node[open_node].query_state = open_state;
             updateStartChunks(&qs, start_chunk, i);
         }
     }
-- 
2.43.0


From 4f4ea0381da4bfbbcfe9b2c350ae5e6dd5d1d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 42/43] fix: matches begun in a reprocessed unit get their
 position in the chunk

---
 JSONQuery/parallel_automata_execution.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 8e677d6..b65a151 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -321,6 +321,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
                     qs_elt = seq_wa->query_stacks_element;   
+                    //matches begun in the unit start relative to its text
+                    for(int n = 0; n<qs.num_node; n++)
+                    {
+                        if(start_chunk[n]==-1 && qs.node[n].matched_start!=INVALID) qs.node[n].matched_start += start_index;
+                    }
                     updateStartChunks(&qs, start_chunk, i);
                     if(j==ul.count_units) merge_needed = 0;
                     continue;
-- 
2.43.0


From 750b593dd4b8049cc04bb9c618f9da85be48c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:58 +0000
Subject: [PATCH 43/43] fix: reprocessing a unit does not lose the number or
 word at its end

---
 JSONQuery/parallel_automata_execution.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index b65a151..d01180b 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -307,7 +307,12 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 int length = unit.end-unit.start+1;
                 int start_index = unit.start-thread_info[i].input_stream;
                 char* streaming = NULL;
-                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length-1);
+                if(unit.end>unit.start)
+                {
+                    streaming = substring(thread_info[i].input_stream, start_index, start_index+length);
+                    //a primitive at the end of the unit needs a character behind it
+                    if(streaming!=NULL) streaming[length-1] = ' ';
+                }
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
-- 
2.43.0

