From 5d6615cc8ffdec8a7f53f91a88a9f3efdd5e170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 001/159] fix: jar insert past capacity no longer writes
 outside the jar before refusing

---
 src/serializer/jar_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializer/jar_mod.F90 b/src/serializer/jar_mod.F90
index 5111451..e441451 100644
--- a/src/serializer/jar_mod.F90
+++ b/src/serializer/jar_mod.F90
@@ -369,10 +369,10 @@ module rmn_jar
             insertion_pos = jar_instance%top                                        ! insert after data currently in jar
         endif
         if (insertion_pos < 0) return                                               ! invalid insertion position
-        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         size_elem = (size_bits + storage_size(jar_content(1)) - 1) / storage_size(jar_content(1))
         if (insertion_pos + size_elem > jar_instance%size_elem) return              ! jar would overflow
+        if (insertion_pos > jar_instance%top) jar_content(jar_instance%top + 1 : insertion_pos) = 0 ! zero fill skipped portion
 
         temp = C_LOC(object)
         call C_F_POINTER(temp, object_as_array, [size_elem])                        ! make what into an integer array
-- 
2.43.0


From a17d83bfd33b9e285ecba38c592f394dc73f1470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 002/159] fix: f_bits_get returns the right bits for 32-bit
 slices and never reads past the stream

---
 src/primitives/f_bit_slicer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/primitives/f_bit_slicer.c b/src/primitives/f_bit_slicer.c
index 02fc4ce..0922507 100644
--- a/src/primitives/f_bit_slicer.c
+++ b/src/primitives/f_bit_slicer.c
@@ -52,12 +52,14 @@ void f77name(f_bits_get)(int32_t *bit_array, int32_t *bits_per_slice, int32_t *s
     int current = *bits_per_slice++;                        /* number of bits to extract, min 0, max 32 */
     register unsigned int temp_slice;
 
-    if(left==0) { left = 32; mybits = *bit_array++ ;}       /* refill reservoir if empty */
+    if(left==0 && current>0) { left = 32; mybits = *bit_array++ ;}  /* refill reservoir if empty and bits are needed */
     if(current > 32) current=32;
     if(current <= 0)                  /* 0 bit slice, the easy answer is 0 */
       temp_slice = 0;
-    else if((current==32) && (left==32))
-      temp_slice = *bit_array++ ;
+    else if((current==32) && (left==32)) {  /* whole word wanted and reservoir is full : take all of it */
+      temp_slice = mybits;
+      left = 0;
+    }
     else if(left >= current){         /* enough bits in reservoir to satisfy request */
       register unsigned int temp = ( -1 << (32-current));   /* extraction mask */
       temp = (temp & mybits) >> (32-current);               /* extract and align right */
-- 
2.43.0


From a046771ff5533b2f24959b75936b25afd4e858d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 003/159] fix: ftn2c_string_copy stays inside the source for
 blank, empty and unterminated strings

---
 src/primitives/ftn2c_helper_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/ftn2c_helper_c.c b/src/primitives/ftn2c_helper_c.c
index 9bc0c9f..870ebf9 100644
--- a/src/primitives/ftn2c_helper_c.c
+++ b/src/primitives/ftn2c_helper_c.c
@@ -35,10 +35,10 @@ int ftn2c_string_copy(
 ) {
     int i;
     // If there is a null before lsrc characters in the source string, act as if it was terminated at null
-    for (i = 0 ; src[i] != 0 && i < lsrc; i++);
+    for (i = 0 ; i < lsrc && src[i] != 0; i++);
     lsrc = i;
     // Ignore trailing blanks in source string
-    while (src[lsrc - 1] == ' ') lsrc--;
+    while (lsrc > 0 && src[lsrc - 1] == ' ') lsrc--;
     // No destination, just return trimmed source length
     if (dest == NULL) return lsrc;
     // Trimmed source longer than destination!
-- 
2.43.0


From e1caaa69f113ad790c473881e50418db8ae25623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 004/159] fix: strnlen and strlen get their arguments by value
 (C strings were measured past the caller's limit)

---
 src/primitives/f_c_strings_mod.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/f_c_strings_mod.F90 b/src/primitives/f_c_strings_mod.F90
index 902e349..415e252 100644
--- a/src/primitives/f_c_strings_mod.F90
+++ b/src/primitives/f_c_strings_mod.F90
@@ -23,14 +23,14 @@ module f_c_strings_mod
             import :: C_CHAR, C_SIZE_T
             implicit none
             character(C_CHAR), dimension(*), intent(IN) :: str
-            integer(C_SIZE_T), intent(IN) :: maxlen
+            integer(C_SIZE_T), intent(IN), value :: maxlen
             integer(C_SIZE_T) :: strlen
         end function c_strnlen
 
         function c_strlen(str) result(strlen) bind(C, name='strlen')
             import :: C_PTR, C_SIZE_T
             implicit none
-            type(C_PTR), intent(IN) :: str
+            type(C_PTR), intent(IN), value :: str
             integer(C_SIZE_T) :: strlen
         end function c_strlen
 
-- 
2.43.0


From 32dbee7e068de597b974549f2108e990c1ad0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 005/159] fix: strncpy_f2c puts the terminating null after the
 last character instead of over it

---
 src/primitives/f_c_strings_mod.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/f_c_strings_mod.F90 b/src/primitives/f_c_strings_mod.F90
index 415e252..4de08c1 100644
--- a/src/primitives/f_c_strings_mod.F90
+++ b/src/primitives/f_c_strings_mod.F90
@@ -196,11 +196,12 @@ module f_c_strings_mod
         character(C_CHAR), dimension(n), intent(OUT) :: c_str
 
         integer :: clen, i
+        if (n < 1) return                        ! no room for the terminating null
         clen = min(len(f_str), n-1)              ! C string can accept at most n-1 bytes
         do i = 1, clen
             c_str(i) = f_str(i:i)                  ! copy string
         enddo
-        c_str(clen:clen) = achar(0)              ! add terminating null
+        c_str(clen+1) = achar(0)                 ! add terminating null
     end subroutine strncpy_f2c
 
     !> Copy a NULL terminated character array of up to n characters into a Fortran string
-- 
2.43.0


From 3c8373e7f0f5a56e9914eccb2103b2a877250b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:14 +0000
Subject: [PATCH 006/159] fix: ftnStrLen of a zero-length Fortran string no
 longer reads outside the string

---
 src/base/ftnStrLen.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/base/ftnStrLen.c b/src/base/ftnStrLen.c
index a768d7f..46b741a 100644
--- a/src/base/ftnStrLen.c
+++ b/src/base/ftnStrLen.c
@@ -8,12 +8,9 @@ unsigned int ftnStrLen(
     //! [in] Maximum length as defined for the Fortran string
     const uint32_t maxLen
 ) {
-    uint32_t len = maxLen - 1;
-    while (len > 0 && (str[len] == ' ' || str[len] == '\0')) {
+    uint32_t len = maxLen;
+    while (len > 0 && (str[len - 1] == ' ' || str[len - 1] == '\0')) {
         len--;
     }
-    if (str[len] != ' ' && str[len] != '\0') {
-        len++;
-    }
     return len;
 }
-- 
2.43.0


From 8fd98803db894cb137f5e80c29340acfce20d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 007/159] fix: c_env_var_cracker leaves the environment
 variable it reads as it was

---
 src/primitives/c_env_var_cracker.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index de1ac2d..9e439f0 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -200,15 +200,20 @@ void c_env_var_cracker(
 
     char strings[MAXSTRINGS][MAXLINELENGTH];
 
-    char * option = getenv(fstoption);
-    if (option == NULL) {
+    const char * const env_value = getenv(fstoption);
+    if (env_value == NULL) {
         return;
     }
 
-    if (strlen(option = getenv(fstoption)) == 0) {
+    const size_t env_len = strlen(env_value);
+    if (env_len == 0) {
         return;
     }
 
+    /* work on a copy : strtok would cut the value kept in the environment */
+    char * option = (char *)malloc(env_len + 1);
+    memcpy(option, env_value, env_len + 1);
+
 #ifdef DEBUG
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: option: %s\n",__func__,option);
 #endif
@@ -274,6 +279,10 @@ void c_env_var_cracker(
             int result = check_start_end_char(values, strlen(values));
 
             if (result == NONMATCHING) {
+                free(name);
+                free(values);
+                free(value);
+                free(option);
                 return;
             }
 
@@ -334,4 +343,5 @@ void c_env_var_cracker(
     if (value) {
         free(value);
     }
+    free(option);
 }
-- 
2.43.0


From d7632a39a758f30f5b0a906dece8e444df397754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 008/159] fix: c_env_var_cracker takes values of any length and
 number, and one with separators only

---
 src/primitives/c_env_var_cracker.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index 9e439f0..a4dc8a5 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -6,9 +6,6 @@
 
 #include <rmn/rpnmacros.h>
 
-#define MAXSTRINGS 32
-#define MAXLINELENGTH 255
-
 #define NONMATCHING -1
 
 #define QUOTES     50
@@ -198,8 +195,6 @@ void c_env_var_cracker(
     char * delimiter2 = "=";
     char * delimiter3 = ", ";
 
-    char strings[MAXSTRINGS][MAXLINELENGTH];
-
     const char * const env_value = getenv(fstoption);
     if (env_value == NULL) {
         return;
@@ -219,24 +214,18 @@ void c_env_var_cracker(
 #endif
 
     /* parse options (extract variable name and values) using ";" separator */
-    char * token = strtok(option, delimiter1);
+    /* every piece fits in the length of the whole value, there is at most one piece per two characters */
+    char ** strings = (char **)malloc((env_len / 2 + 1) * sizeof(char *));
+    char * name = (char *)malloc(env_len + 1);
+    char * values = (char *)malloc(env_len + 1);
+    char * value = (char *)malloc(env_len + 1);
 
     int length = 0;
-    strncpy(strings[length], token, strlen(token));
-    strings[length][strlen(token)] = '\0';
-    length++;
-
-
-    char * name = (char *)malloc(MAXLINELENGTH);
-    char * values = (char *)malloc(MAXLINELENGTH);
-    char * value = (char *)malloc(MAXLINELENGTH);
-
-    while ((token = strtok(0, delimiter1)) != 0) {
-        strncpy(strings[length], token, strlen(token));
-        strings[length][strlen(token)] = '\0';
-        length++;
+    for (char * piece = strtok(option, delimiter1); piece != NULL; piece = strtok(NULL, delimiter1)) {
+        strings[length++] = piece;
     }
 
+    char * token;
     int index = 0;
     for (int i = 0; i < length; i++) {
         /* parse variable name /value using "=" separator */
@@ -282,6 +271,7 @@ void c_env_var_cracker(
                 free(name);
                 free(values);
                 free(value);
+                free(strings);
                 free(option);
                 return;
             }
@@ -343,5 +333,6 @@ void c_env_var_cracker(
     if (value) {
         free(value);
     }
+    free(strings);
     free(option);
 }
-- 
2.43.0


From 463c26ed62cedde4bd441b8bedefdab903c8cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 009/159] fix: c_env_var_cracker ignores option pieces without
 a name or a value instead of crashing

---
 src/primitives/c_env_var_cracker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index a4dc8a5..f053568 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -230,6 +230,7 @@ void c_env_var_cracker(
     for (int i = 0; i < length; i++) {
         /* parse variable name /value using "=" separator */
         token = strtok(strings[i], delimiter2);
+        if (token == NULL) continue;
         strncpy(name, token, strlen(token));
 
         name[strlen(token)] = '\0';
@@ -294,6 +295,7 @@ void c_env_var_cracker(
 
                 /* parse values using "," separator */
                 token = strtok(values, delimiter3);
+                if (token == NULL) continue;
                 strncpy(value, token, strlen(token));
                 value[strlen(token)] = '\0';
 
-- 
2.43.0


From 918786dca46defdb2fe973de93fadf13f56e835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 010/159] fix: c_env_var_cracker checks closing parentheses and
 refuses a lone quote

---
 src/primitives/c_env_var_cracker.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index f053568..161cf60 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -98,6 +98,11 @@ int check_start_end_char(char *string, int length)
         space_count++;
     }
 
+    // a lone quote has no matching end
+    if (length - space_count == 1 && strchr("[](){}\"\'", string[space_count]) != NULL) {
+        return NONMATCHING;
+    }
+
     if (string[space_count] == '[') {
         if (string[length - 1] == ']') {
             return QUOTES;
@@ -114,8 +119,8 @@ int check_start_end_char(char *string, int length)
         }
     }
 
-    if (string[length - 1] == '(') {
-        if (string[space_count] == ')') {
+    if (string[length - 1] == ')') {
+        if (string[space_count] == '(') {
             return QUOTES;
         } else{
             return NONMATCHING;
-- 
2.43.0


From b6ddbace480ed2c4d3892a6ea338f18b6f7847c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 011/159] fix: c_env_var_cracker numbers the values of every
 option from one

---
 src/primitives/c_env_var_cracker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_env_var_cracker.c b/src/primitives/c_env_var_cracker.c
index 161cf60..13130ff 100644
--- a/src/primitives/c_env_var_cracker.c
+++ b/src/primitives/c_env_var_cracker.c
@@ -231,8 +231,10 @@ void c_env_var_cracker(
     }
 
     char * token;
-    int index = 0;
+    int index;
     for (int i = 0; i < length; i++) {
+        /* position of a value within its own option */
+        index = 0;
         /* parse variable name /value using "=" separator */
         token = strtok(strings[i], delimiter2);
         if (token == NULL) continue;
-- 
2.43.0


From f2c41b086ff1fb0583e7826d63a278aaffff10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 012/159] fix: c_ccard reports zero positional arguments
 instead of an uninitialised count

---
 src/primitives/c_ccard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index eebd0f8..4d78ffc 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -81,7 +81,7 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
   int retourne_npos =  FAUX;
   char *keyname, *pointeur,*prognom;
 
-  int   pos, posc, ii, i, posmoin, npos_interne;
+  int   pos, posc, ii, i, posmoin, npos_interne = 0;
   int erreur = 0;
 
   /*  reserver la memoire et initialiser les n structures de clefs  */
-- 
2.43.0


From 42cc722fd1575d6720b6b04edfeae5ae401f79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 013/159] fix: c_ccard reports values in excess of a list
 instead of looping or reading outside the key table

---
 src/primitives/c_ccard.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index 4d78ffc..e46b408 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -70,8 +70,8 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
 {
   void free(), exit();
 
-  int c_jfc_cherche_la_clef();
-  void c_jfc_tradup(), c_jfc_traduire(),  c_jfc_les_valeurs();
+  int c_jfc_cherche_la_clef(), c_jfc_les_valeurs();
+  void c_jfc_tradup(), c_jfc_traduire();
   void sequence_appel();
   char **c_jfc_positionel();
 
@@ -183,7 +183,8 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
         if (pointeur != (char *) NULL)
         {
           *argv = pointeur+1;
-          c_jfc_les_valeurs(les_clefs,argv, pos, &posc);
+          if (c_jfc_les_valeurs(les_clefs, argv, pos, &posc, n) && plante)
+            exit (-1);
         }
         else
         {
@@ -200,9 +201,10 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
     }
     else
     {
-      if ((posc != -1) && (strcmp(*(cle+posc),*(cle+pos)) == 0))
+      if ((pos != -1) && (posc < n) && (strcmp(*(cle+posc),*(cle+pos)) == 0))
       {
-        c_jfc_les_valeurs(les_clefs, argv, pos, &posc);
+        if (c_jfc_les_valeurs(les_clefs, argv, pos, &posc, n) && plante)
+          exit (-1);
       }
       else
       {
@@ -272,8 +274,8 @@ int c_jfc_cherche_la_clef(char *nom,struct c_jfc_definition cle[],int n)
  *  extraire les elements d'une liste                           *
  ****************************************************************/
 
-void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
-                       int pos, int *posc)
+int c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
+                      int pos, int *posc, int n)
 
      /*
       *   pour l'element contenu dans argv, on fait les operations
@@ -286,6 +288,7 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
       *          exemple:   *argv =  =-12:34          donnera
       *                               -12 34     qui seront associes
       *                      a deux clefs contigues ayant le meme nom dans la liste des clefs.
+      *   retourne VRAI s'il y a plus de valeurs que de clefs de ce nom (les valeurs de trop sont ignorees)
       */
 {
 
@@ -294,7 +297,7 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
 
   for (nombre = 0; ;)
   {
-    if ((*posc > -1) && (strcmp(clefs[*posc].clenom,clefs[pos].clenom)) == 0)
+    if ((*posc < n) && (strcmp(clefs[*posc].clenom,clefs[pos].clenom)) == 0)
     {
       deux_pt = strchr(*argv,':');
       if (deux_pt != (char *) NULL)
@@ -329,9 +332,11 @@ void c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
     else
     {
       fprintf(stderr,"\n***ERREUR DEBORDEMENT DE LISTE  OU MODE POSITIONNEL\n");
+      return(VRAI);
     }
 
   }
+  return(FAUX);
 }
 
 /******************************************************
-- 
2.43.0


From 347f7e5f8b13f4bbac981a99893a6cb5788c5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 014/159] fix: c_ccard counts every positional argument and
 refuses them without a positional key

---
 src/primitives/c_ccard.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index e46b408..1f89c12 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -158,8 +158,11 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
       {
         /*on recupere le reste des arguments positionels */
         argv++;
-        argv = c_jfc_positionel(argv,les_clefs,n,posmoin,
-                                &npos_interne,0,&erreur);
+        if (posmoin > -1)
+          argv = c_jfc_positionel(argv,les_clefs,n,posmoin,
+                                  &npos_interne,0,&erreur);
+        else if (*argv)
+          erreur++;
         if(erreur)
         {
           fprintf(stderr,"\n ***ERREUR - TROP D'ARGUMENTS POSITIONELS \n");
@@ -494,13 +497,7 @@ char **c_jfc_positionel(char **argv, struct c_jfc_definition les_clefs[],
     {
       return(argv);
     }
-    if(posc >= n)
-    {
-      argv++;
-      (*erreur)++;
-      return(argv);
-    }
-    if(strcmp(les_clefs[posc].clenom,les_clefs[pos].clenom) == 0)
+    if((posc < n) && (strcmp(les_clefs[posc].clenom,les_clefs[pos].clenom) == 0))
     {
       strcpy(les_clefs[posc].clefin,*argv);
     }
-- 
2.43.0


From 630b9c3b5c8a06cc9a92190f88ca7eab3a13e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:42 +0000
Subject: [PATCH 015/159] fix: c_ccard keeps long keys and values inside its
 buffers

---
 src/primitives/c_ccard.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/primitives/c_ccard.c b/src/primitives/c_ccard.c
index 1f89c12..d298d62 100644
--- a/src/primitives/c_ccard.c
+++ b/src/primitives/c_ccard.c
@@ -191,7 +191,7 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
         }
         else
         {
-          strcpy( les_clefs[posc].clefin , les_clefs[posc].cledef);
+          strncpy(les_clefs[posc].clefin, les_clefs[posc].cledef, NCARMAX-1);
         }
       }
       else
@@ -251,20 +251,12 @@ void c_ccard(char **argv, int argc, char **cle, char val[][NCARMAX],
 
 int c_jfc_cherche_la_clef(char *nom,struct c_jfc_definition cle[],int n)
 {
-  int i=0;
-
-  char tmpstr[256];
-
-  strcpy(tmpstr, nom);
-  while (*(tmpstr+i))
-  {
-    *(tmpstr+i) = toupper(*(tmpstr+i));
-    i++;
-  }
+  int i, j;
 
   for (i=0; i<n; i++)
   {
-    if (strcmp(tmpstr,cle[i].clenom) == 0)
+    for (j=0; nom[j] && toupper(nom[j]) == cle[i].clenom[j]; j++);
+    if (nom[j] == '\0' && cle[i].clenom[j] == '\0')
     {
       return(i);
     }
@@ -309,11 +301,11 @@ int c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
         nombre = strlen(*argv);
         if (**argv == '=')
         {
-          strcpy( clefs[*posc].clefin, (*argv)+1);
+          strncpy(clefs[*posc].clefin, (*argv)+1, NCARMAX-1);
         }
         else
         {
-          strcpy( clefs[*posc].clefin, *argv);
+          strncpy(clefs[*posc].clefin, *argv, NCARMAX-1);
         }
         *argv =deux_pt + 1;
         (*posc)++;
@@ -322,11 +314,11 @@ int c_jfc_les_valeurs(struct c_jfc_definition clefs[], char **argv,
       {
         if (**argv == '=')
         {
-          strcpy( clefs[*posc].clefin,(*argv)+1);
+          strncpy(clefs[*posc].clefin, (*argv)+1, NCARMAX-1);
         }
         else
         {
-          strcpy( clefs[*posc].clefin,*argv);
+          strncpy(clefs[*posc].clefin, *argv, NCARMAX-1);
         }
         (*posc)++;
         break;
@@ -499,7 +491,7 @@ char **c_jfc_positionel(char **argv, struct c_jfc_definition les_clefs[],
     }
     if((posc < n) && (strcmp(les_clefs[posc].clenom,les_clefs[pos].clenom) == 0))
     {
-      strcpy(les_clefs[posc].clefin,*argv);
+      strncpy(les_clefs[posc].clefin, *argv, NCARMAX-1);
     }
     else
     {
-- 
2.43.0


From 920b6523f8e78bfe94f445d3cd6735c77fb2d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:14 +0000
Subject: [PATCH 016/159] fix: ccard never gives a value to a key that was not
 named

---
 src/primitives/ccard.F90 | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/primitives/ccard.F90 b/src/primitives/ccard.F90
index e88054f..7e70134 100644
--- a/src/primitives/ccard.F90
+++ b/src/primitives/ccard.F90
@@ -84,7 +84,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
     CHARACTER * 50 cleup, cle(NKLEMAX), cletemp
     CHARACTER * 8192 argup, ARG, ccard_args, ARGtemp
     CHARACTER * 60 keyName
-    LOGICAL pasfini, plante
+    LOGICAL pasfini, plante, permis
     INTEGER status, interne
     Integer largenv
 
@@ -135,8 +135,8 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
     ! TROUVER LA POSITION DE LA premierE CLEF - DANS LA LISTE CLE
 
-    posmoin = 1
-    posmoinc = 1
+    posmoin = 0
+    posmoinc = 0
     DO j = 1, nbkeys
         IF (cle(j) == '-') THEN
             posmoinc = j
@@ -146,7 +146,7 @@ subroutine ccard(incle, def, val, nbkeys, ii)
     END DO
 
     pos = 1
-    posc = 1
+    posc = 0
     interne = 0
     pasfini = .TRUE.
     DO WHILE (pasfini)
@@ -173,6 +173,8 @@ subroutine ccard(incle, def, val, nbkeys, ii)
             END DO
 
             IF (j > nbkeys) THEN
+                ! no key for the values that follow
+                posc = 0
                 cllng = len_trim(argup)
                 write(app_msg,*) 'ccard: Unknow key ', argup(1:cllng)
                 call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
@@ -184,7 +186,9 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
         ELSE IF (status == 2) THEN
             ! argup is a value for a key
-            IF (posc /= 0 .AND. cle(pos) == cle(posc)) THEN
+            permis = posc >= 1 .AND. posc <= nbkeys
+            IF (permis) permis = cle(pos) == cle(posc)
+            IF (permis) THEN
                 CALL qqqtrns(argtemp, arg, cltype(posc))
                 VAL(posc) = ARGtemp
                 ! print *,'Debug+ ccard cle(posc)=',cle(posc),' ARGtemp=', trim(ARGtemp)
@@ -202,10 +206,12 @@ subroutine ccard(incle, def, val, nbkeys, ii)
 
         ELSE IF (status == 3) THEN
             ! argup is a positionnal argument
-            IF (posmoinc /= 0 .AND. cle(posmoin) == cle(posmoinc)) THEN
+            permis = posmoin >= 1 .AND. posmoinc <= nbkeys
+            IF (permis) permis = cle(posmoin) == cle(posmoinc)
+            IF (permis) THEN
                 CALL qqqtrns(argtemp, arg, cltype(posmoinc))
                 val(posmoinc) = argtemp
-                write(keyname, errorFmt) '%%' // trim(cle(posmoinc)), posmoinc - pos, '%%'
+                write(keyname, errorFmt) '%%' // trim(cle(posmoinc)), posmoinc - posmoin, '%%'
                 call c_set_appl_var(keyname, argtemp)
             ELSE
                 call lib_log(APP_LIBRMN,APP_ERROR,'ccard: List overflow or positionnal mode not allowed')
-- 
2.43.0


From adf11a5fa5ee56cfd8c9f195a84126b773a1184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 017/159] fix: application variables are found by their whole
 name, not by a prefix of another one

---
 src/primitives/appl_var.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index b7bcfa5..e973a98 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -46,7 +46,7 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     while ((lv > 0) && (value[lv-1] == ' ')) lv--;
     if (ln != 0) {
         for (i = 0; i < In_Used; i++) {
-            if (strncmp(name,appl_var_table[i].name,ln) == 0) {
+            if (appl_var_table[i].ncn == ln && strncmp(name,appl_var_table[i].name,ln) == 0) {
                 ind = i;
                 break;
             }
@@ -84,7 +84,7 @@ int get_appl_var(char* varname,char *value, int ln, int lng) {
 
     if (ln != 0) {
         for (i = 0; i < In_Used;  i++) {
-            if (strncasecmp(varname,appl_var_table[i].name,ln) == 0) {
+            if (appl_var_table[i].ncn == ln && strncasecmp(varname,appl_var_table[i].name,ln) == 0) {
                 ind = i;
                 break;
             }
-- 
2.43.0


From 5a37633fc4855ed0763e0a02fcc2bfa9c51a68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 018/159] fix: c_get_appl_var stays inside the caller's string

---
 src/primitives/appl_var.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index e973a98..ad99cc8 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -105,9 +105,9 @@ int get_appl_var(char* varname,char *value, int ln, int lng) {
 
 int32_t f77name(c_get_appl_var)(char* name, char* value, F2Cl ln, F2Cl lv) {
     int lng = get_appl_var(name, value, ln, lv);
-    int i = lng;
+    int i = lng < 0 ? (int)lv : lng;
     /* remove null, blank pad */
-    while (i <= lv) {
+    while (i < lv) {
         value[i++] = ' ';
     }
     return (int32_t) lng;
-- 
2.43.0


From bcc5c99820d67b997b65fd078ae69ed5472648ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 019/159] fix: the application variable table can be used again
 after c_free_appl_var_table

---
 src/primitives/appl_var.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index ad99cc8..4f4b000 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -33,6 +33,8 @@ void free_appl_var_table(){
     for (int i = 0; i < In_Used; i++) {
         if (appl_var_table[i].name) free(appl_var_table[i].name);
         if (appl_var_table[i].value) free(appl_var_table[i].value);
+        appl_var_table[i].name = (char *) NULL;
+        appl_var_table[i].value = (char *) NULL;
         appl_var_table[i].ncn = 0;
         appl_var_table[i].ncv = 0;
     }
-- 
2.43.0


From 3cbec305e29f3dfd4411644198a057188a74b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 020/159] fix: get_ccard_arg_m allocates room for the end of
 the string

---
 src/primitives/get_ccard_arg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/get_ccard_arg.c b/src/primitives/get_ccard_arg.c
index 6c271c4..2de1b7a 100644
--- a/src/primitives/get_ccard_arg.c
+++ b/src/primitives/get_ccard_arg.c
@@ -16,7 +16,7 @@ char* get_ccard_arg_m(
 //    Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: keyname --->>%s<<--- strlen(keyname)=%d\n",__func__,keyname,strlen(keyname));
     lng = get_appl_var(keyname, &value, strlen(keyname), 0);
     if (lng != 0) {
-        pt = malloc(-lng);
+        pt = malloc(-lng + 1);
         lng2 = get_appl_var(keyname, pt, strlen(keyname), -lng);
         pt[lng2] = '\0';
     }
-- 
2.43.0


From 8650e5230f5224e7f8d40b772e3b03f71cdeea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 021/159] fix: set_appl_var refuses a variable past the end of
 its table

---
 src/primitives/appl_var.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index 4f4b000..2d0259c 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -1,5 +1,6 @@
 #include <stddef.h>
 #include <stdint.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <strings.h>
@@ -65,6 +66,10 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     if (ind != -1) {
         i = ind;
     } else {
+        if (In_Used >= MAX_ENTRIES) {
+            fprintf(stderr, "set_appl_var: table of %d application variables is full\n", MAX_ENTRIES);
+            return;
+        }
         i = In_Used++;
     }
 
-- 
2.43.0


From 32983c8111f77cd62bb519c63df12829a13d0cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:47 +0000
Subject: [PATCH 022/159] fix: ccard skips the -- argument instead of resetting
 the first positional value

---
 src/primitives/ccard.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/ccard.F90 b/src/primitives/ccard.F90
index 7e70134..1ebe195 100644
--- a/src/primitives/ccard.F90
+++ b/src/primitives/ccard.F90
@@ -327,6 +327,8 @@ INTEGER FUNCTION qqqobm(arg, cltype)
             IF (argup(2:2) == '-') THEN
                 pudcle = .TRUE.
                 ! CHERCHER PROCHAIN ARG POSITIONEL
+                iindex = indfin
+                CYCLE
             END IF
             EXIT
         ELSE
-- 
2.43.0


From c779f910d9a30f72a8690c148fc166f1c3126b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:27 +0000
Subject: [PATCH 023/159] fix: set_appl_var ends the strings it keeps,
 get_appl_var returned bytes past short values

---
 src/primitives/appl_var.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/appl_var.c b/src/primitives/appl_var.c
index 2d0259c..7ccd73d 100644
--- a/src/primitives/appl_var.c
+++ b/src/primitives/appl_var.c
@@ -81,6 +81,8 @@ void set_appl_var(char* name, char* value, int ln, int lv) {
     appl_var_table[i].ncv = lv;
     strncpy(appl_var_table[i].name,name,ln);
     strncpy(appl_var_table[i].value,value,lv);
+    appl_var_table[i].name[ln] = '\0';
+    appl_var_table[i].value[lv] = '\0';
 }
 
 
-- 
2.43.0


From 1a58d5c7704a876862f38305df64110dfa041c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:44 +0000
Subject: [PATCH 024/159] fix: clib_basename of a path without '/' keeps its
 first character, of '/x' is x

---
 src/primitives/clib_interface.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index b5db8b1..03b8a0d 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -731,15 +731,20 @@ F77_INTEGER CLIB_F77NAME(clib_basename)(
     // fill destination with blanks, in case ...
     FTN2C_CSTR2FSTR(defStr, mybasename, 1, mybasename_length);
     mybasename[0] = '/';
-    int lpath = path_length - 1;
+    // length without trailing blanks
+    int lpath = path_length;
+    while (lpath > 0 && path[lpath - 1] == ' ') {
+        lpath--;
+    }
     if ( lpath == 1 && path[0] == '/' ) {
         return CLIB_OK;
     }
-    // scan backwards to find last '/' in path
-    while (lpath > 0 && path[lpath] != '/') {
-        lpath--;
+    // scan backwards to find what follows the last '/' in path
+    int start = lpath;
+    while (start > 0 && path[start - 1] != '/') {
+        start--;
     }
-    F77_INTEGER status = FTN2C_CSTR2FSTR(path + lpath + 1, mybasename, path_length - lpath - 1, mybasename_length);
+    F77_INTEGER status = FTN2C_CSTR2FSTR(path + start, mybasename, lpath - start, mybasename_length);
     return status < 0 ? CLIB_ERROR : CLIB_OK;
 }
 
-- 
2.43.0


From dfa3788a15a04451c6d8ae015c85b5d438f18bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:44 +0000
Subject: [PATCH 025/159] fix: clib_mkdir_r fails when the path exists and is
 not a directory

---
 src/primitives/clib_interface.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/primitives/clib_interface.c b/src/primitives/clib_interface.c
index 03b8a0d..567c86d 100644
--- a/src/primitives/clib_interface.c
+++ b/src/primitives/clib_interface.c
@@ -982,10 +982,16 @@ int mkpath(char *s, mode_t mode){
     if ((mkpath(up, mode) == -1) && (errno != EEXIST))
             goto out;
 
-    if ((mkdir(path, mode) == -1) && (errno != EEXIST))
-            rv = -1;
-    else
+    struct stat buf;
+    if (mkdir(path, mode) == 0)
             rv = 0;
+    else if (errno == EEXIST && !stat(path, &buf)) {
+            // what exists has to be a directory
+            if (S_ISDIR(buf.st_mode))
+                    rv = 0;
+            else
+                    errno = ENOTDIR;
+    }
 
 out:
     if (up != NULL)
-- 
2.43.0


From 756b9f31461510d16d144c5250e68bbd6ed55c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 026/159] fix: ezscint: look up the grids of a hash chain one
 after the other, compare the reference grid

---
 src/interp/ez_findgrid.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/interp/ez_findgrid.c b/src/interp/ez_findgrid.c
index bfe9a07..ca2bf43 100644
--- a/src/interp/ez_findgrid.c
+++ b/src/interp/ez_findgrid.c
@@ -48,6 +48,7 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         // printf("refgd->grtyp=%c  ni=%d nj= %d\n",refgd->grtyp[0],refgd->ni,refgd->nj);
 
         if (gr->grtyp[0] == refgd->grtyp[0] &&
+            (gr->grtyp[0] == 'G' || gr->grref[0] == refgd->grref[0]) &&
             gr->ni == refgd->ni &&  gr->nj == refgd->nj &&
             gr->fst.ig[IG1] == refgd->fst.ig[IG1] && gr->fst.ig[IG2] == refgd->fst.ig[IG2] &&
             gr->fst.ig[IG3] == refgd->fst.ig[IG3] && gr->fst.ig[IG4] == refgd->fst.ig[IG4]) {
@@ -63,7 +64,7 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                 if (refgd->ax != NULL && refgd->ay != NULL && gr->ax != NULL && gr->ay != NULL) {
                     resax = 0;
                     resay = 0;
-                    if (refgd->grtyp[0] == 'Z') {
+                    if (refgd->grtyp[0] == 'Z' || refgd->grtyp[0] == '#') {
                         for (i=0; i < gr->ni; i++) {
                             if (refgd->ax[i] != gr->ax[i]) {
                                 resax = 1;
@@ -115,6 +116,13 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
                     found = 1;
                     index_found = refgd->index;
                 }
+            } else {
+                if (refgd->next_gd == -1) {
+                    end_reached = 1;
+                } else {
+                    c_gdkey2rowcol(refgd->next_gd, &gdrow, &gdcol);
+                    refgd = &Grille[gdrow][gdcol];
+                }
             }
         } else {
             if (refgd->next_gd == -1) {
@@ -126,7 +134,9 @@ int c_ez_findgrid(int grid_index, _Grille *gr) {
         }
     }
 
-    refgd->access_count++;
+    if (found != -1) {
+        refgd->access_count++;
+    }
 #ifdef MUTEX
     pthread_mutex_unlock(&EZ_MTX);
 #endif
-- 
2.43.0


From dc22db34f318912c5879a0874afe77c9074e0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 027/159] fix: ezscint: releasing a grid forgets that grid only
 and its interpolation sets

---
 src/interp/ez_addgrid.c           | 25 +++++++++++++---
 src/interp/ez_find_gdin.c         |  8 +++--
 src/interp/ez_find_gdin_in_gset.c |  2 +-
 src/interp/ez_freegridset.c       | 50 +++++++++++++++++++++++++++++++
 src/interp/ez_funcdef.h           |  2 ++
 src/interp/ez_statics.c           |  1 +
 src/interp/ezdefset.c             | 16 ++++------
 src/interp/gdrls.c                | 34 +++++++++++++++++----
 8 files changed, 114 insertions(+), 24 deletions(-)

diff --git a/src/interp/ez_addgrid.c b/src/interp/ez_addgrid.c
index 19e2ee0..a1af70f 100644
--- a/src/interp/ez_addgrid.c
+++ b/src/interp/ez_addgrid.c
@@ -45,9 +45,18 @@ int c_ez_addgrid(
     newgr->access_count++;
     newgr->grid_index = grid_index;
 
+    // Slots of released grids are used before the table is extended
+    int new_gdid = nGrilles;
+    if (nGrillesLibres > 0) {
+        for (new_gdid = 0; new_gdid < nGrilles; new_gdid++) {
+            c_gdkey2rowcol(new_gdid, &gdrow, &gdcol);
+            if (Grille[gdrow][gdcol].index == -1) break;
+        }
+    }
+
     cur_gr = gr_list[grid_index];
     if (cur_gr == NULL) {
-        gdindex = nGrilles;
+        gdindex = new_gdid;
         c_gdkey2rowcol(gdindex, &gdrow, &gdcol);
         Grille[gdrow][gdcol].grid_index = grid_index;
 
@@ -62,14 +71,22 @@ int c_ez_addgrid(
             c_gdkey2rowcol(next_index, &nxt_row, &nxt_col);
             next_index = Grille[nxt_row][nxt_col].next_gd;
         }
-        Grille[nxt_row][nxt_col].next_gd = nGrilles;
+        Grille[nxt_row][nxt_col].next_gd = new_gdid;
     }
 
-    c_gdkey2rowcol(nGrilles, &gdrow, &gdcol);
+    c_gdkey2rowcol(new_gdid, &gdrow, &gdcol);
     memcpy(&(Grille[gdrow][gdcol]), newgr, sizeof(_Grille));
-    Grille[gdrow][gdcol].index = nGrilles;
+    Grille[gdrow][gdcol].index = new_gdid;
     Grille[gdrow][gdcol].next_gd = -1;
 
+    if (new_gdid < nGrilles) {
+        nGrillesLibres--;
+#ifdef MUTEX
+        pthread_mutex_unlock(&EZ_MTX);
+#endif
+        return new_gdid;
+    }
+
     nGrilles++;
     if (nGrilles >= chunks_sq[cur_log_chunk]) {
         fprintf(stderr, "<c_ez_addgrid> : Message from the EZSCINT package\n");
diff --git a/src/interp/ez_find_gdin.c b/src/interp/ez_find_gdin.c
index 18ed8ae..c3219f8 100644
--- a/src/interp/ez_find_gdin.c
+++ b/src/interp/ez_find_gdin.c
@@ -1,3 +1,5 @@
+#include <stddef.h>
+
 #include <rmn/rpnmacros.h>
 
 #include <rmn/ezscint.h>
@@ -9,7 +11,7 @@ int c_find_gdin(int gdin, int gdout) {
 
     c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
     idx_gdin = Grille[gdrow_out][gdcol_out].idx_last_gdin;
-    if (idx_gdin == -1){
+    if (idx_gdin == -1 || Grille[gdrow_out][gdcol_out].gset == NULL) {
         c_ezdefset(gdout, gdin);
         idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     }
@@ -19,12 +21,12 @@ int c_find_gdin(int gdin, int gdout) {
         return idx_gdin;
     }
 
-    idx_gdin = gdin % primes[cur_log_chunk];
+    idx_gdin = gdin % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     if (gset[idx_gdin].gdin == gdin) {
         return idx_gdin;
     }
 
-    i = idx_gdin + 1;
+    i = (idx_gdin + 1) % primes[Grille[gdrow_out][gdcol_out].log_chunk_gdin];
     found = 0;
     while (found == 0 && i != idx_gdin && gset[i].gdin != -1) {
         if (gset[i].gdin == gdin) {
diff --git a/src/interp/ez_find_gdin_in_gset.c b/src/interp/ez_find_gdin_in_gset.c
index 54b9643..3393e33 100644
--- a/src/interp/ez_find_gdin_in_gset.c
+++ b/src/interp/ez_find_gdin_in_gset.c
@@ -30,7 +30,7 @@
     else
       {
       i++;
-      if (0 == (i % primes[cur_log_chunk]))
+      if (0 == (i % primes[gr->log_chunk_gdin]))
         {
         i = 0;
         }
diff --git a/src/interp/ez_freegridset.c b/src/interp/ez_freegridset.c
index 904e662..46d3f7c 100644
--- a/src/interp/ez_freegridset.c
+++ b/src/interp/ez_freegridset.c
@@ -79,5 +79,55 @@ int32_t c_ezfreegridset(int32_t gdid, int32_t index)
             Grille[gdrow][gdcol].gset[index].zones[i].idx = NULL;
         }
     }
+
+    free(Grille[gdrow][gdcol].gset[index].ygrid.lat);
+    free(Grille[gdrow][gdcol].gset[index].ygrid.lon);
+    free(Grille[gdrow][gdcol].gset[index].ygrid.wts);
+    free(Grille[gdrow][gdcol].gset[index].ygrid.idx);
+    free(Grille[gdrow][gdcol].gset[index].ygrid.mask);
+
+    // The entry is free again; the entries that follow it move up to where a search for them starts
+    _gridset *gset = Grille[gdrow][gdcol].gset;
+    const int32_t size = primes[Grille[gdrow][gdcol].log_chunk_gdin];
+    memset(&gset[index], 0, sizeof(_gridset));
+    gset[index].gdin = -1;
+    for (int32_t i = (index + 1) % size; gset[i].gdin != -1; i = (i + 1) % size) {
+        int32_t j = gset[i].gdin % size;
+        while (j != i && gset[j].gdin != -1) j = (j + 1) % size;
+        if (j != i) {
+            gset[j] = gset[i];
+            memset(&gset[i], 0, sizeof(_gridset));
+            gset[i].gdin = -1;
+        }
+    }
+    Grille[gdrow][gdcol].n_gdin--;
+    Grille[gdrow][gdcol].idx_last_gdin = -1;
     return 0;
 }
+
+
+//! Free all the sets for which a grid is the output grid
+void c_ezfreegridsets(int32_t gdid)
+{
+    int32_t gdrow, gdcol, gdrow_in, gdcol_in;
+
+    c_gdkey2rowcol(gdid,  &gdrow,  &gdcol);
+    if (Grille[gdrow][gdcol].gset == NULL) return;
+
+    for (int32_t index = 0; index < primes[Grille[gdrow][gdcol].log_chunk_gdin]; index++) {
+        while (Grille[gdrow][gdcol].gset[index].gdin != -1) {
+            c_gdkey2rowcol(Grille[gdrow][gdcol].gset[index].gdin, &gdrow_in, &gdcol_in);
+            _Grille *grin = &Grille[gdrow_in][gdcol_in];
+            for (int32_t i = 0; i < grin->n_gdin_for; i++) {
+                if (grin->gdin_for[i] == gdid) {
+                    grin->n_gdin_for--;
+                    grin->gdin_for[i] = grin->gdin_for[grin->n_gdin_for];
+                    break;
+                }
+            }
+            c_ezfreegridset(gdid, index);
+        }
+    }
+    free(Grille[gdrow][gdcol].gset);
+    Grille[gdrow][gdcol].gset = NULL;
+}
diff --git a/src/interp/ez_funcdef.h b/src/interp/ez_funcdef.h
index dff5a47..8b77bd3 100644
--- a/src/interp/ez_funcdef.h
+++ b/src/interp/ez_funcdef.h
@@ -12,6 +12,7 @@
 extern _Grille **Grille;
 extern _Grille **gr_list;
 extern int32_t nGrilles;
+extern int32_t nGrillesLibres;
 extern int32_t nGrillesMax;
 extern int32_t cur_log_chunk;
 
@@ -72,6 +73,7 @@ void ez_xpncof(int32_t *i1,int32_t *i2,int32_t *j1,int32_t *j2,int32_t *couvertu
 void ez_xpnsrcgd(int32_t gdid, float *zout, float *zin);
 
 int32_t c_ezfreegridset(int32_t gdid, int32_t index);
+void c_ezfreegridsets(int32_t gdid);
 
 int32_t c_ezgdef_yymask(_Grille *gr);
 
diff --git a/src/interp/ez_statics.c b/src/interp/ez_statics.c
index 1fc30bd..30858e8 100644
--- a/src/interp/ez_statics.c
+++ b/src/interp/ez_statics.c
@@ -6,6 +6,7 @@
 _Grille **Grille  = NULL;
 _Grille **gr_list = NULL;
 int32_t nGrilles = 0;
+int32_t nGrillesLibres = 0;
 int32_t nGrillesMax = CHUNK * CHUNK;
 int32_t cur_log_chunk = 7;
 
diff --git a/src/interp/ezdefset.c b/src/interp/ezdefset.c
index d341d50..a17355c 100644
--- a/src/interp/ezdefset.c
+++ b/src/interp/ezdefset.c
@@ -66,7 +66,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
 
    nsets = Grille[gdrow_out][gdcol_out].n_gdin;
 
-   if (nsets == 0)
+   if (gr->gset == NULL)
    {
       allocate_gridset_table(gdout);
       gr->log_chunk_gdin = cur_log_chunk;
@@ -74,13 +74,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
 
    if (nsets >= primes[MAX_LOG_CHUNK])
    {
-      for (i=0; i < nsets; i++)
-      {
-         if (gr->gset[i].gdin != -1)
-         {
-            c_ezfreegridset(gdin, i);
-         }
-      }
+      c_ezfreegridsets(gdout);
       nsets = 0;
       allocate_gridset_table(gdout);
       gr->log_chunk_gdin = cur_log_chunk;
@@ -106,7 +100,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
          found = i;
          iset_gdin = gdin;
          iset_gdout = gdout;
-         Grille[gdrow_out][gdcol_out].idx_last_gdin = Grille[gdrow_out][gdcol_out].gset[i].gdin;
+         Grille[gdrow_out][gdcol_out].idx_last_gdin = i;
          return 1;
       }
       else
@@ -133,7 +127,7 @@ int32_t c_ezdefset(int32_t gdout, int32_t gdin) {
    gr->gset[i].y = malloc (sizeof(float)*npts);
    gr->gset[i].use_sincos_cache = 0;
 
-   if (gr->n_gdin >= (primes[gr->log_chunk_gdin]/2))
+   if (gr->n_gdin >= (primes[gr->log_chunk_gdin]/2) && gr->log_chunk_gdin < MAX_LOG_CHUNK)
    {
       reallocate_gridset_table(gdout);
    }
@@ -196,7 +190,7 @@ void reallocate_gridset_table(int gdid) {
             if (newTable[newIndex].gdin == -1) {
                 memcpy(&(newTable[newIndex]), &(gr->gset[i]), sizeof(_gridset));
             } else {
-                newIndex++;
+                newIndex = (newIndex + 1) % newChunkSize;
                 inserted = -1;
                 /** && curIndex != (newIndex-1)) (a reverifier-- Yves-20120228)**/
                 while (inserted == -1) {
diff --git a/src/interp/gdrls.c b/src/interp/gdrls.c
index 2570785..2e2d007 100644
--- a/src/interp/gdrls.c
+++ b/src/interp/gdrls.c
@@ -43,7 +43,7 @@ void EliminerGrille(int32_t gdid) {
         Grille[gdrow_id][gdcol_id].access_count--;
     }
 
-    if (Grille[gdrow_id][gdcol_id].access_count == 0) {
+    if (Grille[gdrow_id][gdcol_id].access_count == 0 && Grille[gdrow_id][gdcol_id].index == gdid) {
         if (Grille[gdrow_id][gdcol_id].flags & LAT) {
             if (Grille[gdrow_id][gdcol_id].lat != NULL) {
                 free(Grille[gdrow_id][gdcol_id].lat);
@@ -67,12 +67,36 @@ void EliminerGrille(int32_t gdid) {
 
         for (int32_t i = 0; i < Grille[gdrow_id][gdcol_id].n_gdin_for; i++) {
             int32_t index = ez_find_gdin_in_gset(gdid, Grille[gdrow_id][gdcol_id].gdin_for[i]);
-            c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
+            if (index >= 0) c_ezfreegridset(Grille[gdrow_id][gdcol_id].gdin_for[i], index);
         }
-
-        gr_list[Grille[gdrow_id][gdcol_id].grid_index] = (_Grille *) NULL;
+        free(Grille[gdrow_id][gdcol_id].gdin_for);
+        Grille[gdrow_id][gdcol_id].n_gdin_for = 0;
+        c_ezfreegridsets(gdid);
+
+        // Take the grid out of its list, the others of the list stay
+        int32_t grid_index = Grille[gdrow_id][gdcol_id].grid_index;
+        int32_t next_row_id, next_col_id;
+        _Grille *next = NULL;
+        if (Grille[gdrow_id][gdcol_id].next_gd != -1) {
+            c_gdkey2rowcol(Grille[gdrow_id][gdcol_id].next_gd, &next_row_id, &next_col_id);
+            next = &Grille[next_row_id][next_col_id];
+        }
+        if (gr_list[grid_index] == &Grille[gdrow_id][gdcol_id]) {
+            gr_list[grid_index] = next;
+        } else {
+            _Grille *prev = gr_list[grid_index];
+            while (prev->next_gd != gdid) {
+                c_gdkey2rowcol(prev->next_gd, &next_row_id, &next_col_id);
+                prev = &Grille[next_row_id][next_col_id];
+            }
+            prev->next_gd = Grille[gdrow_id][gdcol_id].next_gd;
+        }
+        free(Grille[gdrow_id][gdcol_id].mask);
+        free(Grille[gdrow_id][gdcol_id].subgrid);
         memset(&(Grille[gdrow_id][gdcol_id]), 0, sizeof(_Grille));
-        nGrilles--;
+        // The slot can be used again, the other grids keep theirs
+        Grille[gdrow_id][gdcol_id].index = -1;
+        nGrillesLibres++;
     }
 
 #ifdef MUTEX
-- 
2.43.0


From c06a2959cc3b799cd1db2908b34c9a5140e11a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 028/159] fix: ezscint: keep the longitudes given, position of
 points in hemispheric Gaussian grids

---
 src/interp/ez_calcxy.c | 18 ++++++++++++++----
 src/interp/gdllfxy.c   | 22 +++++++++++++++-------
 src/interp/gdxyfll.c   | 19 ++++++++++++++-----
 3 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/interp/ez_calcxy.c b/src/interp/ez_calcxy.c
index fd7fb2f..61e704f 100644
--- a/src/interp/ez_calcxy.c
+++ b/src/interp/ez_calcxy.c
@@ -19,6 +19,7 @@
  */
 
 #include <stdlib.h>
+#include <string.h>
 
 #include <rmn/ezscint.h>
 #include "ez_funcdef.h"
@@ -32,7 +33,7 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
     int idx_gdin;
 
     _ygrid *ygrid;
-    float *gdout_lat, *gdout_lon;
+    float *gdout_lat, *gdout_lon, *tmplons;
 
     c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
     c_gdkey2rowcol(gdout, &gdrow_out, &gdcol_out);
@@ -56,6 +57,12 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
     Grille[gdrow_out][gdcol_out].gset[idx_gdin].x = (float *) malloc(ninj_out*sizeof(float));
     Grille[gdrow_out][gdcol_out].gset[idx_gdin].y = (float *) malloc(ninj_out*sizeof(float));
 
+    // The longitudes are changed by the conversion, those of the output grid must not be
+    tmplons = (float *) malloc(ninj_out*sizeof(float));
+    if (Grille[gdrow_out][gdcol_out].flags & LAT) {
+        memcpy(tmplons, Grille[gdrow_out][gdcol_out].lon, ninj_out*sizeof(float));
+    }
+
     switch(Grille[gdrow_in][gdcol_in].grtyp[0]) {
         case 'A':
         case 'B':
@@ -67,7 +74,7 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
         case '!':
             f77name(ez_ll2rgd)(Grille[gdrow_out][gdcol_out].gset[idx_gdin].x,
                             Grille[gdrow_out][gdcol_out].gset[idx_gdin].y,
-                            Grille[gdrow_out][gdcol_out].lat, Grille[gdrow_out][gdcol_out].lon, &ninj_out,
+                            Grille[gdrow_out][gdcol_out].lat, tmplons, &ninj_out,
                             &ni_in, &nj_in, Grille[gdrow_in][gdcol_in].grtyp,
                             &Grille[gdrow_in][gdcol_in].fst.ig[IG1], &Grille[gdrow_in][gdcol_in].fst.ig[IG2],
                             &Grille[gdrow_in][gdcol_in].fst.ig[IG3], &Grille[gdrow_in][gdcol_in].fst.ig[IG4],
@@ -79,9 +86,11 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
         case 'Z':
         case 'G':
             coordonnee = RELATIF;
+            // A hemispheric Gaussian grid has the latitudes of both hemispheres
+            if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'G' && Grille[gdrow_in][gdcol_in].fst.ig[IG1] != GLOBAL) nj_in *= 2;
             f77name(ez_ll2igd)(Grille[gdrow_out][gdcol_out].gset[idx_gdin].x,
                                 Grille[gdrow_out][gdcol_out].gset[idx_gdin].y,
-                                Grille[gdrow_out][gdcol_out].lat, Grille[gdrow_out][gdcol_out].lon, &ninj_out,
+                                Grille[gdrow_out][gdcol_out].lat, tmplons, &ninj_out,
                                 &ni_in,&nj_in,Grille[gdrow_in][gdcol_in].grtyp, Grille[gdrow_in][gdcol_in].grref,
                                 &Grille[gdrow_in][gdcol_in].fst.igref[IG1], &Grille[gdrow_in][gdcol_in].fst.igref[IG2],
                                 &Grille[gdrow_in][gdcol_in].fst.igref[IG3], &Grille[gdrow_in][gdcol_in].fst.igref[IG4],
@@ -90,7 +99,7 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
             if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'G') {
                 if (Grille[gdrow_in][gdcol_in].fst.ig[IG1] == NORD) {
                     for (int32_t j=0; j < ni_out*nj_out; j++) {
-                        Grille[gdrow_out][gdcol_out].gset[idx_gdin].y[j] -= nj_in;
+                        Grille[gdrow_out][gdcol_out].gset[idx_gdin].y[j] -= Grille[gdrow_in][gdcol_in].nj;
                     }
                 }
             }
@@ -131,6 +140,7 @@ int32_t ez_calcxy(int32_t gdin, int32_t gdout)
             break;
     }
 
+    free(tmplons);
     Grille[gdrow_out][gdcol_out].gset[idx_gdin].flags |= XXX;
 
     return 0;
diff --git a/src/interp/gdllfxy.c b/src/interp/gdllfxy.c
index 04c5355..637c74f 100644
--- a/src/interp/gdllfxy.c
+++ b/src/interp/gdllfxy.c
@@ -96,7 +96,7 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
   float *tmpx, *tmpy, *ytmp=NULL;
   float delxx, delyy;
   float dlat, dlon, swlat, swlon;
-  int32_t indx, indy;
+  int32_t indx, indy, njy;
 
   _Grille gr;
 
@@ -186,20 +186,23 @@ int32_t c_gdllfxy_new(int32_t gdid, float *lat, float *lon, float *x, float *y,
       tmpx = (float *) malloc(n*sizeof(float));
       tmpy = (float *) malloc(n*sizeof(float));
       ytmp = (float *) malloc(n*sizeof(float));
+      njy = (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] != GLOBAL) ? 2 * gr.nj : gr.j2;
       for (i=0; i < n; i++)
          {
          indx = (int)x[i]-1;
               ytmp[i] = y[i];
-              if (gr.fst.ig[IG2] == 1)
+              if (gr.grtyp[0] == 'G' && gr.fst.ig[IG2] == 1)
                   {
                     ytmp[i] = gr.nj +1.0 - y[i];
                   }
+         // The latitudes of a northern Gaussian grid follow those of the other hemisphere
+         if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD) ytmp[i] += gr.nj;
          indy = (int)ytmp[i]-1;
 
          indx = indx < 0 ? 0 : indx;
          indy = indy < 0 ? 0 : indy;
          indx = indx > gr.ni-2 ? gr.ni-2 : indx;
-         indy = indy > gr.j2-2 ? gr.j2-2 : indy;
+         indy = indy > njy-2 ? njy-2 : indy;
          delxx = gr.ax[indx+1]-gr.ax[indx];
          tmpx[i] = gr.ax[indx] + ((x[i]-1.0-indx)*delxx);
 
@@ -256,7 +259,8 @@ int32_t c_gdllfxy_orig(int32_t gdid, float *lat, float *lon, float *x, float *y,
   float *tmpx, *tmpy;
   float delxx, delyy;
   float dlat, dlon, swlat, swlon;
-  int32_t indx, indy;
+  int32_t indx, indy, njy;
+  float yi;
 
   _Grille gr;
 
@@ -345,20 +349,24 @@ int32_t c_gdllfxy_orig(int32_t gdid, float *lat, float *lon, float *x, float *y,
     case 'G':
       tmpx = (float *) malloc(n*sizeof(float));
       tmpy = (float *) malloc(n*sizeof(float));
+      njy = (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] != GLOBAL) ? 2 * gr.nj : gr.j2;
       for (i=0; i < n; i++)
          {
          indx = (int)x[i]-1;
-         indy = (int)y[i]-1;
+         yi = y[i];
+         // The latitudes of a northern Gaussian grid follow those of the other hemisphere
+         if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == NORD) yi += gr.nj;
+         indy = (int)yi-1;
 
          indx = indx < 0 ? 0 : indx;
          indy = indy < 0 ? 0 : indy;
          indx = indx > gr.ni-2 ? gr.ni-2 : indx;
-         indy = indy > gr.j2-2 ? gr.j2-2 : indy;
+         indy = indy > njy-2 ? njy-2 : indy;
          delxx = gr.ax[indx+1]-gr.ax[indx];
          tmpx[i] = gr.ax[indx] + ((x[i]-1.0-indx)*delxx);
 
          delyy = gr.ay[indy+1]-gr.ay[indy];
-         tmpy[i] = gr.ay[indy] + ((y[i]-1.0-indy)*delyy);
+         tmpy[i] = gr.ay[indy] + ((yi-1.0-indy)*delyy);
          }
 
       switch (gr.grref[0])
diff --git a/src/interp/gdxyfll.c b/src/interp/gdxyfll.c
index d37592a..a78e07d 100644
--- a/src/interp/gdxyfll.c
+++ b/src/interp/gdxyfll.c
@@ -73,23 +73,28 @@ int32_t c_gdxyfll_new(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case 'G':
             coordonnee = RELATIF;
             nj_in =  gr.j2;
-            f77name(ez_ll2igd)(x, y, lat, lon, &npts,
+            // A hemispheric Gaussian grid has the latitudes of both hemispheres
+            if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] != GLOBAL) nj_in = 2 * gr.nj;
+            tmplons = (float *)malloc(npts * sizeof(float));
+            memcpy(tmplons,lon,sizeof(float)*npts);
+            f77name(ez_ll2igd)(x, y, lat, tmplons, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
                 &gr.fst.igref[IG3], &gr.fst.igref[IG4],
                 gr.ax, gr.ay,&coordonnee, 1, 1);
+            free(tmplons);
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == 1)
                 {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                     }
                 }
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG2] == 1)
         {
                 for  (j=0; j < npts; j++)
                         {
-                    y[j] = nj_in +1.0 - y[j];
+                    y[j] = gr.nj +1.0 - y[j];
                     }
                 }
         break;
@@ -141,14 +146,18 @@ int32_t c_gdxyfll_orig(int32_t gdid, float *x, float *y, float *lat, float *lon,
         case 'Z':
         case 'G':
             nj_in =  gr.j2;
-            f77name(ez_ll2igd)(x, y, lat, lon, &npts,
+            if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] != GLOBAL) nj_in = 2 * gr.nj;
+            tmplons = (float *)malloc(npts * sizeof(float));
+            memcpy(tmplons, lon, sizeof(float) * npts);
+            f77name(ez_ll2igd)(x, y, lat, tmplons, &npts,
                 &ni_in,&nj_in,gr.grtyp, gr.grref,
                 &gr.fst.igref[IG1], &gr.fst.igref[IG2],
                 &gr.fst.igref[IG3], &gr.fst.igref[IG4],
                 gr.ax, gr.ay, &coordonnee, 1, 1);
+            free(tmplons);
             if (gr.grtyp[0] == 'G' && gr.fst.ig[IG1] == 1) {
                 for (int32_t j = 0; j < npts; j++) {
-                    y[j] = y[j] - nj_in;
+                    y[j] = y[j] - gr.nj;
                 }
             }
             break;
-- 
2.43.0


From ff1a50b907b1437008dac592cfe1afe574587490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 029/159] fix: ezscint: mask interpolation computes the
 positions it needs

---
 src/interp/ez_mask.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interp/ez_mask.c b/src/interp/ez_mask.c
index 2ab40de..9ae6c5c 100644
--- a/src/interp/ez_mask.c
+++ b/src/interp/ez_mask.c
@@ -215,6 +215,8 @@ int c_ezsint_mask(int *mask_out, int *mask_in) {
       }
    else
       {
+      ez_calclatlon(gdout);
+      ez_calcxy(gdin, gdout);
       x = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].x;
       y = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].y;
       f77name(qqq_ezsint_mask)(mask_out, x, y, &ni_gdout, &nj_gdout, mask_in, &ni_gdin, &nj_gdin);
@@ -256,6 +258,8 @@ int c_ezget_mask_zones(int *mask_out, int *mask_in) {
     c_ezgprm(gdin, grtyp_in, &ni_gdin, &nj_gdin, &ig1_gdin, &ig2_gdin, &ig3_gdin, &ig4_gdin);
     c_ezgprm(gdout, grtyp_out, &ni_gdout, &nj_gdout, &ig1_gdout, &ig2_gdout, &ig3_gdout, &ig4_gdout);
 
+    ez_calclatlon(gdout);
+    ez_calcxy(gdin, gdout);
     x = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].x;
     y = (float *) Grille[gdrow_out][gdcol_out].gset[idx_gdin].y;
 
-- 
2.43.0


From 680f60e6dd2be2f29fc182dee6470303ad5e4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 030/159] fix: ezscint: pole correction leaves the result of
 the average methods

---
 src/interp/ez_corrval_aunord.c | 5 +++++
 src/interp/ez_corrval_ausud.c  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index 2e06b29..d553568 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -50,6 +50,11 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
         f77name(ez_calcpoleval)(&poleval, &zin[(nj-1)*ni], &ni, lgd->ax, lgd->grtyp, lgd->grref,1,1);
         f77name(ez_fillnpole)(temp, zin, &ni, &(lgd->j1), &(lgd->j2), &poleval);
 
+        // Methods that do not use the pole leave the points as they are
+        for (int32_t i = 0; i < npts; i++) {
+            vals[i] = zout[gset->zones[AU_NORD].idx[i]];
+        }
+
         switch (groptions.degre_interp) {
             case CUBIQUE:
             switch (lgd->grtyp[0]) {
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 3f7304c..bb2a668 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -61,6 +61,12 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 			    lgdin->grtyp, lgdin->grref,1,1);
     f77name(ez_fillspole)(temp, zin, &ni, &lgdin->j1, &lgdin->j2, &vpolesud);
 
+    // Methods that do not use the pole leave the points as they are
+    for (i=0; i < npts; i++)
+      {
+      vals[i] = zout[gset->zones[AU_SUD].idx[i]];
+      }
+
     switch (groptions.degre_interp)
       {
       case CUBIQUE:
-- 
2.43.0


From 74c70094507e148b7476fe0acf51dc443a1f4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 031/159] fix: ezscint: nearest column across the end of a
 global grid, linear cell of the first rows and of negative rows

---
 src/PUBLIC_INCLUDES/rmn/f_ezscint.h | 2 +-
 src/interp/ez_corrval_aunord.c      | 2 +-
 src/interp/ez_corrval_ausud.c       | 2 +-
 src/interp/ez_corrvec_aunord.c      | 9 +++++++--
 src/interp/ez_corrvec_ausud.c       | 9 +++++++--
 src/interp/ez_irgdint_1_w.inc       | 6 +-----
 src/interp/ez_irgdint_3_nw.inc      | 2 +-
 src/interp/ez_irgdint_3_w.inc       | 2 +-
 src/interp/ez_irgdint_3_wnnc.inc    | 2 +-
 src/interp/ez_rgdint_0.inc          | 9 ++++++---
 src/interp/ez_rgdint_1_nw.inc       | 2 +-
 src/interp/ez_rgdint_1_w.inc        | 2 +-
 src/interp/ez_rgdint_3_nw.inc       | 2 +-
 src/interp/ez_rgdint_3_w.inc        | 2 +-
 src/interp/ez_rgdint_3_wnnc.inc     | 2 +-
 src/interp/gdinterp.c               | 6 ++++--
 16 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
index 6286c86..57a22af 100644
--- a/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
+++ b/src/PUBLIC_INCLUDES/rmn/f_ezscint.h
@@ -56,7 +56,7 @@ void f77name(ez_llwfgdw)(float *z1, float *z2, float *xlon, int32_t *li, int32_t
 void f77name(ez_nwtncof)(float *cx, float *cy, float *ax, float *ay, int32_t *ni, int32_t *nj,
                          int32_t *i1, int32_t *i2, int32_t *j1, int32_t *j2, int32_t *extension);
 void f77name(ez_rgdint_0)(float *zo, float *px, float *py, int32_t *npts, float *z,
-                          int32_t *ni, int32_t *j1, int32_t *j2);
+                          int32_t *ni, int32_t *j1, int32_t *j2, int32_t *wrap);
 void f77name(ez_rgdint_1_nw)(float *zo, float *px, float *py, int32_t *npts, float *z,
                              int32_t *ni, int32_t *j1, int32_t *j2);
 void f77name(ez_rgdint_1_w)(float *zo, float *px, float *py, int32_t *npts, float *z,
diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index d553568..ef33b34 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -105,7 +105,7 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 for (int32_t i = 0; i < npts; i++) {
                     temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (lgd->j2-3));
                 }
-                f77name(ez_rgdint_0)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre);
+                f77name(ez_rgdint_0)(vals,gset->zones[AU_NORD].x,temp_y,&npts,temp,&ni, (int32_t *)&un, (int32_t *)&quatre, &(lgd->extension));
                 free(temp_y);
                 break;
             }
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index bb2a668..0180c07 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -126,7 +126,7 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	     {
 	     temp_y[i] = gset->zones[AU_SUD].y[i] - (1.0*j1);
 	     }*/
-	   f77name(ez_rgdint_0)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2);
+	   f77name(ez_rgdint_0)(vals,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,temp,&ni, &j1, &j2, &lgdin->extension);
 	   free(temp_y);
 	   break;
       }
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index 5ba8dd6..1333921 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -56,6 +56,11 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
     polar_vv_in = (float *) malloc(4 * ni * sizeof(float));
     corr_uus = (float *) malloc(npts * sizeof(float));
     corr_vvs = (float *) malloc(npts * sizeof(float));
+    for (i=0; i < npts; i++)
+    {
+        corr_uus[i] = uuout[gset->zones[AU_NORD].idx[i]];
+        corr_vvs[i] = vvout[gset->zones[AU_NORD].idx[i]];
+    }
 
     ez_calcnpolarwind(polar_uu_in, polar_vv_in, uuin, vvin, ni, nj, gdin);
 
@@ -117,8 +122,8 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
             {
             temp_y[i] = gset->zones[AU_NORD].y[i] - (1.0 * (laGrille.j2-3));
             }
-        f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre);
-        f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre);
+        f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_NORD].x,temp_y,&npts,polar_uu_in,&ni, &un, &quatre, &laGrille.extension);
+        f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_NORD].x,temp_y,&npts,polar_vv_in,&ni, &un, &quatre, &laGrille.extension);
         free(temp_y);
         break;
     }
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 71d9841..058ee80 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -55,6 +55,11 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
     polar_vv_in = (float *) malloc(4 * ni * sizeof(float));
     corr_uus = (float *) malloc(npts * sizeof(float));
     corr_vvs = (float *) malloc(npts * sizeof(float));
+    for (i=0; i < npts; i++)
+    {
+        corr_uus[i] = uuout[gset->zones[AU_SUD].idx[i]];
+        corr_vvs[i] = vvout[gset->zones[AU_SUD].idx[i]];
+    }
 
     ez_calcspolarwind(polar_uu_in, polar_vv_in, uuin, vvin, ni, nj, gdin);
 
@@ -106,8 +111,8 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
             break;
 
         case VOISIN:
-            f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2);
-            f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2);
+            f77name(ez_rgdint_0)(corr_uus,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_uu_in,&ni, &j1, &j2, &laGrille.extension);
+            f77name(ez_rgdint_0)(corr_vvs,gset->zones[AU_SUD].x,gset->zones[AU_SUD].y,&npts,polar_vv_in,&ni, &j1, &j2, &laGrille.extension);
             break;
     }
 
diff --git a/src/interp/ez_irgdint_1_w.inc b/src/interp/ez_irgdint_1_w.inc
index dd279e9..ea67d2c 100644
--- a/src/interp/ez_irgdint_1_w.inc
+++ b/src/interp/ez_irgdint_1_w.inc
@@ -31,11 +31,7 @@
       do n=1,npts
          limite = ni+2-wrap
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1+1, ifix(py(n))))
-
-         if (j.lt.0) then
-            j = j-1
-         endif
+         j = min(j2-1,max(j1, floor(py(n))))
 
          iplus1 = i+1
 
diff --git a/src/interp/ez_irgdint_3_nw.inc b/src/interp/ez_irgdint_3_nw.inc
index a27a97e..170695f 100644
--- a/src/interp/ez_irgdint_3_nw.inc
+++ b/src/interp/ez_irgdint_3_nw.inc
@@ -88,7 +88,7 @@
       
       do n=1,npts
          i = min(i2-2,max(i1+1,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          x = ax(i) + (ax(i+1)-ax(i))*(px(n)-i)
          y = ay(j) + (ay(j+1)-ay(j))*(py(n)-j)
diff --git a/src/interp/ez_irgdint_3_w.inc b/src/interp/ez_irgdint_3_w.inc
index c7eb1d4..b5fa6e2 100644
--- a/src/interp/ez_irgdint_3_w.inc
+++ b/src/interp/ez_irgdint_3_w.inc
@@ -92,7 +92,7 @@
 !zzzzzz$OMP DO PRIVATE(n)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index 8c9d4f9..475f11b 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -92,7 +92,7 @@
       limite = ni+2-wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
          
          imoins1 = i-1
          iplus1 = i+1
diff --git a/src/interp/ez_rgdint_0.inc b/src/interp/ez_rgdint_0.inc
index 554b17a..b1f6b05 100644
--- a/src/interp/ez_rgdint_0.inc
+++ b/src/interp/ez_rgdint_0.inc
@@ -17,15 +17,18 @@
 ! * Free Software Foundation, Inc., 59 Temple Place - Suite 330,
 ! * Boston, MA 02111-1307, USA.
 ! */
-      subroutine ez_rgdint_0(zo,px,py,npts,z,ni,j1,j2)
+      subroutine ez_rgdint_0(zo,px,py,npts,z,ni,j1,j2,wrap)
       implicit none
 
-      integer npts, ni, j1, j2, i, j, n
+      integer npts, ni, j1, j2, wrap, i, j, n
       real zo(npts),px(npts),py(npts)
       real z(ni,j1:j2)
 
       do n=1,npts
-         i = min(ni,max(1,nint(px(n))))
+         i = nint(px(n))
+!        past the last column of a grid that goes round the earth, the first one is the next
+         if (wrap.eq.2.and.i.eq.ni+1) i = 1
+         i = min(ni,max(1,i))
          j = min(j2,max(j1,nint(py(n))))
 
          zo(n)=z(i,j)
diff --git a/src/interp/ez_rgdint_1_nw.inc b/src/interp/ez_rgdint_1_nw.inc
index 8781271..4185faf 100644
--- a/src/interp/ez_rgdint_1_nw.inc
+++ b/src/interp/ez_rgdint_1_nw.inc
@@ -29,7 +29,7 @@
 
       do n=1,npts
          i = min(ni-1,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_1_w.inc b/src/interp/ez_rgdint_1_w.inc
index 6006d90..320bbdf 100644
--- a/src/interp/ez_rgdint_1_w.inc
+++ b/src/interp/ez_rgdint_1_w.inc
@@ -31,7 +31,7 @@
       limite = ni +2 - wrap
       do n=1,npts
          i = min(ni-2+wrap,max(1,ifix(px(n))))
-         j = min(j2-1,max(j1,ifix(py(n))))
+         j = min(j2-1,max(j1,floor(py(n))))
          
          iplus1 = i + 1
          if (wrap.gt.0.and.(i.eq.(ni-2+wrap))) then
diff --git a/src/interp/ez_rgdint_3_nw.inc b/src/interp/ez_rgdint_3_nw.inc
index 3d6f4cf..5beb3d6 100644
--- a/src/interp/ez_rgdint_3_nw.inc
+++ b/src/interp/ez_rgdint_3_nw.inc
@@ -60,7 +60,7 @@
 
       do n=1,npts
          i = min(ni-2,max(2,ifix(px(n))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          dx = px(n) - i
          dy = py(n) - j
diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index e4c8da5..4e49a82 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -71,7 +71,7 @@
 !zzzzzz$OMP DO private(n, i, j, imoins1, iplus1, iplus2, y1, y2, y3, y4)
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0) then
             imoins1 = mod(limite+i-1,limite)
diff --git a/src/interp/ez_rgdint_3_wnnc.inc b/src/interp/ez_rgdint_3_wnnc.inc
index ad60415..3cd539f 100644
--- a/src/interp/ez_rgdint_3_wnnc.inc
+++ b/src/interp/ez_rgdint_3_wnnc.inc
@@ -71,7 +71,7 @@
 
       do n=1,npts
          i = min(ni-2+wrap,max(1,max(2-wrap,ifix(px(n)))))
-         j = min(j2-2,max(j1+1,ifix(py(n))))
+         j = min(j2-2,max(j1+1,floor(py(n))))
 
          if (wrap.gt.0.and.(i.le.1).or.i.ge.(ni-1)) then
             imoins1 = mod(limite+i-1,limite)
diff --git a/src/interp/gdinterp.c b/src/interp/gdinterp.c
index 30dde82..d6166b6 100644
--- a/src/interp/gdinterp.c
+++ b/src/interp/gdinterp.c
@@ -137,7 +137,8 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
             switch (groptions.degre_interp) {
                 case VOISIN:
                     f77name(ez_rgdint_0)(zout, x, y, &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+                        &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2,
+                        &Grille[gdrow_in][gdcol_in].extension);
                 break;
 
                 case LINEAIRE:
@@ -240,7 +241,8 @@ int32_t c_gdinterp(float *zout, float *zin, int32_t gdin, float *x, float *y, in
          case VOISIN:
          f77name(ez_rgdint_0)(zout,x,y,
             &lnpts, zin, &Grille[gdrow_in][gdcol_in].ni,
-            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2);
+            &Grille[gdrow_in][gdcol_in].j1, &Grille[gdrow_in][gdcol_in].j2,
+            &Grille[gdrow_in][gdcol_in].extension);
          break;
 
          case LINEAIRE:
-- 
2.43.0


From dfe213b5e3ff64d7bc3a77358f8b574e12a925ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 032/159] fix: ezscint: cubic interpolation at the sides of
 irregular grids and across the repeated column

---
 src/interp/ez_irgdint_3_nw.inc   | 9 ++++++---
 src/interp/ez_irgdint_3_w.inc    | 6 ++++--
 src/interp/ez_irgdint_3_wnnc.inc | 2 +-
 src/interp/ez_rgdint_3_w.inc     | 2 +-
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/interp/ez_irgdint_3_nw.inc b/src/interp/ez_irgdint_3_nw.inc
index 170695f..dfc0c20 100644
--- a/src/interp/ez_irgdint_3_nw.inc
+++ b/src/interp/ez_irgdint_3_nw.inc
@@ -68,7 +68,7 @@
 !     
 !  structure identique pour cy(j,1..6)
 
-      integer i, j, n
+      integer i, j, n, ii, jj
       real*8 a11,a12,a13,a14,a21,a22,a23,a24
       real*8 a31,a32,a33,a34,a41,a42,a43,a44
       real*8 b1,b2,b3,b4,b11,b12,b13,b14
@@ -90,8 +90,11 @@
          i = min(i2-2,max(i1+1,ifix(px(n))))
          j = min(j2-2,max(j1+1,floor(py(n))))
          
-         x = ax(i) + (ax(i+1)-ax(i))*(px(n)-i)
-         y = ay(j) + (ay(j+1)-ay(j))*(py(n)-j)
+!        position in the cell of the point, which is not the one of i,j along the sides of the grid
+         ii = min(i2-1,max(i1,ifix(px(n))))
+         jj = min(j2-1,max(j1,floor(py(n))))
+         x = ax(ii) + (ax(ii+1)-ax(ii))*(px(n)-ii)
+         y = ay(jj) + (ay(jj+1)-ay(jj))*(py(n)-jj)
          
          x1=ax(i-1)
          x2=ax(i)
diff --git a/src/interp/ez_irgdint_3_w.inc b/src/interp/ez_irgdint_3_w.inc
index b5fa6e2..d9fcfc9 100644
--- a/src/interp/ez_irgdint_3_w.inc
+++ b/src/interp/ez_irgdint_3_w.inc
@@ -68,7 +68,7 @@
 !     
 !  structure identique pour cy(j,1..6)
 
-      integer i, j, n
+      integer i, j, n, jj
       real*8 a11,a12,a13,a14,a21,a22,a23,a24
       real*8 a31,a32,a33,a34,a41,a42,a43,a44
       real*8 b1,b2,b3,b4,b11,b12,b13,b14
@@ -160,7 +160,9 @@
          endif
          
          x = x2 + (x3-x2)*(px(n)-i)
-         y = ay(j) + (ay(j+1)-ay(j))*(py(n)-j)
+!        position in the cell of the point, which is not the one of j in the first and last rows
+         jj = min(j2-1,max(j1,floor(py(n))))
+         y = ay(jj) + (ay(jj+1)-ay(jj))*(py(n)-jj)
          
          y1=ay(j-1)
          y2=ay(j)
diff --git a/src/interp/ez_irgdint_3_wnnc.inc b/src/interp/ez_irgdint_3_wnnc.inc
index 475f11b..c13bf26 100644
--- a/src/interp/ez_irgdint_3_wnnc.inc
+++ b/src/interp/ez_irgdint_3_wnnc.inc
@@ -111,7 +111,7 @@
             if (i.eq.(ni-1)) then
                imoins1 = ni-2
                iplus1  = ni
-               iplus2  = 1
+               iplus2  = 2
                x1 = ax(ni-2)
                x2 = ax(ni-1)
                x3 = ax(ni)
diff --git a/src/interp/ez_rgdint_3_w.inc b/src/interp/ez_rgdint_3_w.inc
index 4e49a82..36f3c53 100644
--- a/src/interp/ez_rgdint_3_w.inc
+++ b/src/interp/ez_rgdint_3_w.inc
@@ -84,7 +84,7 @@
             if (iplus2.eq.0) iplus2 = ni
 
             if (wrap.eq.1) then
-               if (iplus2.eq.ni) iplus2 = 2
+               if (i.eq.ni-1) iplus2 = 2
                if (imoins1.eq.ni) imoins1=ni-1
             endif
          else
-- 
2.43.0


From 3470f1ef1b04592a76f422b0e4a335de7eec1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:44 +0000
Subject: [PATCH 033/159] fix: ezscint: no outside for a global Z grid of any
 resolution

---
 src/interp/ez_defzones.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interp/ez_defzones.c b/src/interp/ez_defzones.c
index 062b878..020cfd9 100644
--- a/src/interp/ez_defzones.c
+++ b/src/interp/ez_defzones.c
@@ -71,7 +71,8 @@ switch (Grille[gdrow_in][gdcol_in].grtyp[0])
 
          case 'E':
          case 'L':
-         if (358.0 > (Grille[gdrow_in][gdcol_in].ax[Grille[gdrow_in][gdcol_in].ni-1] - Grille[gdrow_in][gdcol_in].ax[0]))
+         // a coarse grid that goes round the earth without repeating its first column has no outside either
+         if (Grille[gdrow_in][gdcol_in].extension == 0 && 358.0 > (Grille[gdrow_in][gdcol_in].ax[Grille[gdrow_in][gdcol_in].ni-1] - Grille[gdrow_in][gdcol_in].ax[0]))
             {
             extrap = EZ_EXTRAP;
             }
-- 
2.43.0


From ceb11c2db93e191676481226403c033d08e13893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:50 +0000
Subject: [PATCH 034/159] fix: ezscint: E grids go round the earth and have no
 axes, their poles are those of the rotated frame

---
 src/interp/ez_corrval_aunord.c   | 1 -
 src/interp/ez_corrval_ausud.c    | 1 -
 src/interp/ez_corrvec_aunord.c   | 1 -
 src/interp/ez_corrvec_ausud.c    | 1 -
 src/interp/ez_defzone_polenord.c | 3 ++-
 src/interp/ez_defzone_polesud.c  | 3 ++-
 src/interp/ez_xpncof.c           | 1 +
 7 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index ef33b34..d22d51d 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -59,7 +59,6 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
             case CUBIQUE:
             switch (lgd->grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G': {
                     float ay[4];
                     if  (lgd->ay[lgd->j2-1] == 90.0) {
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 0180c07..2d33bda 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -73,7 +73,6 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	   switch (lgdin->grtyp[0])
 	     {
 	     case 'Z':
-	     case 'E':
 	     case 'G':
           if  (lgdin->ay[lgdin->j1-1] == -90.0)
              {
diff --git a/src/interp/ez_corrvec_aunord.c b/src/interp/ez_corrvec_aunord.c
index 1333921..d026e14 100644
--- a/src/interp/ez_corrvec_aunord.c
+++ b/src/interp/ez_corrvec_aunord.c
@@ -70,7 +70,6 @@ int32_t ez_corrvec_aunord(float *uuout, float *vvout, float *uuin, float *vvin,
         switch (laGrille.grtyp[0])
             {
             case 'Z':
-            case 'E':
             case 'G':
             if (laGrille.ay[j1+1] == 90.0)
                 {
diff --git a/src/interp/ez_corrvec_ausud.c b/src/interp/ez_corrvec_ausud.c
index 058ee80..221b6e2 100644
--- a/src/interp/ez_corrvec_ausud.c
+++ b/src/interp/ez_corrvec_ausud.c
@@ -67,7 +67,6 @@ int32_t ez_corrvec_ausud(float *uuout, float *vvout,
         case CUBIQUE:
             switch (laGrille.grtyp[0]) {
                 case 'Z':
-                case 'E':
                 case 'G':
                 if (laGrille.ay[0] == -90.0)
                     {
diff --git a/src/interp/ez_defzone_polenord.c b/src/interp/ez_defzone_polenord.c
index af7acb7..4d2dc87 100644
--- a/src/interp/ez_defzone_polenord.c
+++ b/src/interp/ez_defzone_polenord.c
@@ -43,7 +43,8 @@ int32_t ez_defzone_polenord(int32_t gdin, float *x, float *y, int32_t npts, _zon
     tmpidx = (int32_t  *) malloc(npts*sizeof(int32_t));
 
     nhits = 0;
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' ||
+        (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolenord = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolenord = Grille[gdrow_in][gdcol_in].nj+0.5;
     } else {
diff --git a/src/interp/ez_defzone_polesud.c b/src/interp/ez_defzone_polesud.c
index 4e0c7e4..1e0ab4d 100644
--- a/src/interp/ez_defzone_polesud.c
+++ b/src/interp/ez_defzone_polesud.c
@@ -43,7 +43,8 @@ int32_t ez_defzone_polesud(int32_t gdin, float *x, float *y, int32_t npts, _zone
 
     nhits = 0;
 
-    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E') {
+    if (Grille[gdrow_in][gdcol_in].grtyp[0] == 'E' ||
+        (Grille[gdrow_in][gdcol_in].grtyp[0] == 'Z' && Grille[gdrow_in][gdcol_in].grref[0] == 'E')) {
         xpolesud = 0.5 * Grille[gdrow_in][gdcol_in].ni;
         ypolesud = 0.5;
     } else {
diff --git a/src/interp/ez_xpncof.c b/src/interp/ez_xpncof.c
index 9cffb5f..d3454a1 100644
--- a/src/interp/ez_xpncof.c
+++ b/src/interp/ez_xpncof.c
@@ -150,6 +150,7 @@ void ez_xpncof(int32_t *i1, int32_t *i2, int32_t *j1, int32_t *j2, int32_t *exte
       break;
 
       case 'E':
+      *extension = 1;
       *j1 = 1;
       *j2 = nj;
       break;
-- 
2.43.0


From 9aeb7e4b0edaac6d635571673ff3c0c5c553bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 035/159] fix: ezgetopt reads back the average methods

---
 src/interp/ezgetopt.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/interp/ezgetopt.c b/src/interp/ezgetopt.c
index 1297cd1..455b450 100644
--- a/src/interp/ezgetopt.c
+++ b/src/interp/ezgetopt.c
@@ -116,6 +116,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubic");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "error");
                 break;
@@ -136,6 +144,14 @@ int32_t c_ezgetopt(char *option, char *value)
                 strcpy(value, "cubique");
                 break;
 
+            case 4:
+                strcpy(value, "average");
+                break;
+
+            case 5:
+                strcpy(value, "sph_average");
+                break;
+
             default:
                 strcpy(value, "erreur");
                 break;
-- 
2.43.0


From b10146741886db3bbd4fb1962004540c61c8808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 036/159] fix: gduvfwd: rotate the given positions for an E
 grid

---
 src/interp/gduvfwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp/gduvfwd.c b/src/interp/gduvfwd.c
index 828edf6..7eb710f 100644
--- a/src/interp/gduvfwd.c
+++ b/src/interp/gduvfwd.c
@@ -44,7 +44,7 @@ int32_t c_gduvfwd_orig(int32_t gdid,  float *uugdout, float *vvgdout, float *uul
         case 'E':
             lat_true = (float *)(malloc(npts * sizeof(float)));
             lon_true = (float *)(malloc(npts * sizeof(float)));
-            f77name(ez_gfxyfll)(lon_true, lat_true, lonin, latin, &ni,
+            f77name(ez_gfxyfll)(lonin, latin, lon_true, lat_true, &ni,
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT1], &Grille[gdrow_id][gdcol_id].fst.xg[XLON1],
                                 &Grille[gdrow_id][gdcol_id].fst.xg[XLAT2], &Grille[gdrow_id][gdcol_id].fst.xg[XLON2]);
 
-- 
2.43.0


From b64d241ebf9d1e1c81bc830c8d6719665d5e6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:35 +0000
Subject: [PATCH 037/159] fix: ezyymint: restore the extrapolation value
 whatever the extrapolation degree

---
 src/interp/ezyymint.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index 8b4c43c..bf3d70a 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -26,7 +26,7 @@
 
 int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *maskout, float *dlat, float *dlon, float *yinlat, float *yinlon, int32_t *yyincount, float *yanlat, float *yanlon, int32_t *yyancount)
 {
-  int32_t ivalue,icode,i,j,k,yin_mgid;
+  int32_t icode,i,j,k,yin_mgid;
   int32_t gdrow_in, gdcol_in, mask_gdrow, mask_gdcol;
   int32_t yincount,yancount,yni,ynj;
   float *yin_fld, global_extrap_value, local_extrap_value;
@@ -47,12 +47,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   strcpy(extrap_degree,"extrap_degree");
   strcpy(extrap_value,"extrap_value");
   icode = c_ezgetopt(extrap_degree,global_extrap_degree);
-  ivalue = 0;
-  if (0 == strcmp(global_extrap_degree,"value"))
-    {
-    icode = c_ezgetval(extrap_value,&global_extrap_value);
-    ivalue = 1;
-    }
+  icode = c_ezgetval(extrap_value,&global_extrap_value);
   strcpy(local_val,"nearest");
   icode = c_ezsetopt(interp_degree, local_val);
 
@@ -64,10 +59,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   icode = c_ezsint_orig(maskout,yin_fld);
   /*masking is done,reset original interp options*/
   icode = c_ezsetopt(interp_degree, global_interp_degree);
-    if (ivalue == 1)
-    {
-    icode = c_ezsetval(extrap_value, global_extrap_value);
-    }
+  icode = c_ezsetval(extrap_value, global_extrap_value);
   icode = c_ezsetopt(extrap_degree, global_extrap_degree);
   free(yin_fld);
 
-- 
2.43.0


From c6b8b470c13bfbd8fcf7f8d38773874bff7f0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 038/159] fix: ezyymint: the Yin-Yang partition does not depend
 on the polar correction in force

---
 src/interp/ezyymint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interp/ezyymint.c b/src/interp/ezyymint.c
index bf3d70a..336d602 100644
--- a/src/interp/ezyymint.c
+++ b/src/interp/ezyymint.c
@@ -32,6 +32,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   float *yin_fld, global_extrap_value, local_extrap_value;
   char interp_degree[32],extrap_degree[32],extrap_value[32],local_val[32];
   char global_interp_degree[32],global_extrap_degree[32];
+  char polar_correction[32],global_polar_correction[32];
   
   c_gdkey2rowcol(gdin,  &gdrow_in,  &gdcol_in);
   yin_mgid=Grille[gdrow_in][gdcol_in].mymaskgrid;
@@ -48,6 +49,11 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   strcpy(extrap_value,"extrap_value");
   icode = c_ezgetopt(extrap_degree,global_extrap_degree);
   icode = c_ezgetval(extrap_value,&global_extrap_value);
+  /* values outside the mask grid are only set when zones are corrected */
+  strcpy(polar_correction,"polar_correction");
+  icode = c_ezgetopt(polar_correction,global_polar_correction);
+  strcpy(local_val,"yes");
+  icode = c_ezsetopt(polar_correction, local_val);
   strcpy(local_val,"nearest");
   icode = c_ezsetopt(interp_degree, local_val);
 
@@ -61,6 +67,7 @@ int32_t c_ezyymint(int32_t gdout, int32_t gdin, int32_t ni, int32_t nj, float *m
   icode = c_ezsetopt(interp_degree, global_interp_degree);
   icode = c_ezsetval(extrap_value, global_extrap_value);
   icode = c_ezsetopt(extrap_degree, global_extrap_degree);
+  icode = c_ezsetopt(polar_correction, global_polar_correction);
   free(yin_fld);
 
 /* now create the destination grids */
-- 
2.43.0


From 7600a23a2f3484526b2f9c50db2416ef817c4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 039/159] fix: c_wawrit2 filled only a quarter of a hole with
 zeros

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index f3d5c80..72063ff 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -941,7 +941,7 @@ int c_wawrit2(
     }
     if ( offset > FGFDT[entry].file_size + 1 ) {
         uint32_t scrap[WA_HOLE];
-        memset(scrap, 0, WA_HOLE);
+        memset(scrap, 0, sizeof(scrap));
         qqcwawr(scrap, FGFDT[entry].file_size + 1, offset - FGFDT[entry].file_size, entry);
     }
     uint32_t * const bufswap = (uint32_t *) buf;
-- 
2.43.0


From f096bdb27d7e6f1a303e58fa87006498ac585dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 040/159] fix: c_waread2 two words past the end asked for a
 negative number of words

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 72063ff..e88db8e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1028,7 +1028,7 @@ int c_waread2(
     if ( offset + lnwords - 1 > FGFDT[entry].eff_file_size ) {
         lnwords -= (offset + lnwords - 1 - FGFDT[entry].eff_file_size);
     }
-    if ( lnwords == 0 ) return 0;
+    if ( lnwords <= 0 ) return 0;
     qqcward((uint32_t *)buf, offset, lnwords, entry);
     if (*little_endian) swap_buffer_endianness(bufswap, lnwords);
     return lnwords;
-- 
2.43.0


From 4501f5812a96f0725f8dd3188641627469bebb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 041/159] fix: a refused c_fnom left its unit taken

---
 src/primitives/c_baseio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e88db8e..4092db5 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -442,6 +442,7 @@ int c_fnom(
     if (FGFDT[entry].attr.scratch) {
         if (strstr(lnom, "/")) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: / is illegal in scratch file name, specified name was %s\n",__func__,lnom);
+            c_fclos(liun);
             return -1;
         }
         int pid = getpid();
@@ -534,6 +535,7 @@ int c_fnom(
 
                 if (access(filename, F_OK)  == -1) {
                     /* not under ARMNLIB either */
+                    c_fclos(liun);
                     return -1;
                 }
             }
-- 
2.43.0


From caf79b7a401e57bb9b6cb994999a01915f80d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 042/159] fix: c_fclos of an open word addressable file did not
 flush its pages nor free its place in the table

---
 src/primitives/c_baseio.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 4092db5..e0d730b 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -73,6 +73,7 @@ static int c_qqqfscr(const char * const type);
 static int fnom_rem_connect( const int ind, const char * const remote_host);
 static void wa_pages_flush(const int fileIdx);
 static int qqcopen(const int indf);
+static int qqcclos(const int indf);
 static void qqcwawr(const uint32_t * const buf, const unsigned int wadr, const int nwords, const int indf);
 static void qqcward(uint32_t * const buf, const unsigned int woffset, const int lnmots, const int indf);
 static void arrayZero(uint32_t * const dest, const int nwords);
@@ -648,8 +649,10 @@ int c_fclos(
         if (FGFDT[entry].attr.ftn) {
             int32_t iun77 = iun;
             ier = f77name(ftnclos)(&iun77);
-        } else {
+        } else if (FGFDT[entry].attr.remote) {
             ier = close(FGFDT[entry].fd);
+        } else {
+            ier = qqcclos(entry);
         }
     }
 
-- 
2.43.0


From 4dc8d785574dc6feb527df84a88d7e91032397cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 043/159] fix: position of a CMCARC subfile taken at the end of
 the archive

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index e0d730b..8500421 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1846,7 +1846,7 @@ static long long filepos(
     } while(!found);
 
     subfile_length = (nd * 8) / sizeof(uint32_t);
-    off64_t pos64 = lseek(FGFDT[indf].fd, 0, SEEK_END);
+    off64_t pos64 = lseek64(FGFDT[indf].fd, 0, SEEK_CUR);
     return pos64 / sizeof(uint32_t);
 }
 
-- 
2.43.0


From eb0b122aa31c991f16dd28b64d1fd4876659396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 044/159] fix: length of the subfiles of version 5 CMCARC
 archives

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 8500421..9156411 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1845,7 +1845,7 @@ static long long filepos(
         }
     } while(!found);
 
-    subfile_length = (nd * 8) / sizeof(uint32_t);
+    subfile_length = (nd64 * 8) / sizeof(uint32_t);
     off64_t pos64 = lseek64(FGFDT[indf].fd, 0, SEEK_CUR);
     return pos64 / sizeof(uint32_t);
 }
-- 
2.43.0


From 45435783cc893a8dcec5b070a495e392482ea4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 045/159] fix: a file opened in the place of a CMCARC subfile
 kept the offset of the subfile

---
 src/primitives/c_baseio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 9156411..6adc4c1 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1964,6 +1964,7 @@ static int qqcopen(
             return -1;
         }
         wafile[ind].file_desc = fd;
+        wafile[ind].offset = 0;
         FGFDT[indf].fd = fd;
         FGFDT[indf].open_flag = 1;
     }
-- 
2.43.0


From c5c6609af0c8709eb7f85e2bbaa485ee0b1df0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 046/159] fix: opening a missing CMCARC subfile kept the
 archive open

---
 src/primitives/c_baseio.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 6adc4c1..55c1802 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1927,6 +1927,9 @@ static int qqcopen(
         FGFDT[indf].fd = fd;
         if ((wafile[ind].offset = filepos(indf)) <= 0) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: subfile %s not found in %s\n",__func__, FGFDT[indf].subname,FGFDT[indf].file_name);
+            wafile[ind].file_desc = -1;
+            FGFDT[indf].fd = -1;
+            close(fd);
             return -1;
         }
         FGFDT[indf].open_flag = 1;
-- 
2.43.0


From 4c5654c130cd42c9e44321ebe1814c924b89efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 047/159] fix: unit 0 was found among the free entries of the
 unit table

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 55c1802..be6d11a 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -225,7 +225,7 @@ static int find_file_entry(
     const int iun
 ) {
     for (int i = 0; i < MAXFILES; i++) {
-        if (FGFDT[i].iun == iun) {
+        if (iun != 0 && FGFDT[i].iun == iun) {
             return i;
         }
     }
-- 
2.43.0


From 6fef7f5aa6a91bb1630c6da957b7c1e137ebb34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 048/159] fix: first address of a page of the word addressable
 cache when the request ends the page

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index be6d11a..c6db653 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2052,7 +2052,7 @@ static void wa_page_read(
         // Obtenir une nouvelle page
         get_new_page(fileIdx);
         pageIdx = wafile[fileIdx].nb_page_in_use - 1;
-        int wa0 = adr - (adr % WA_PAGE_SIZE) + 1;
+        int wa0 = adr - ((adr - 1) % WA_PAGE_SIZE);
         wafile[fileIdx].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[fileIdx].page[pageIdx].access_count++;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
@@ -2164,7 +2164,7 @@ static void wa_page_write(
         get_new_page(ind);
         pageIdx = wafile[ind].nb_page_in_use - 1;
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: obtention d'une page %d\n",__func__,pageIdx);
-        int wa0 = offset - (offset % WA_PAGE_SIZE) + 1;
+        int wa0 = offset - ((offset - 1) % WA_PAGE_SIZE);
         wafile[ind].page[pageIdx].wa0 = (wa0 > 1) ? wa0 : 1;
         wafile[ind].page[pageIdx].access_count++;
 
-- 
2.43.0


From 05dc619f31bf5814fca0587b6653cc0fff77c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 049/159] fix: wa_page_read took a page for one that overlaps
 itself

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index c6db653..52ac749 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2088,8 +2088,8 @@ static void wa_page_read(
     for (int j = 0; j < wafile[fileIdx].nb_page_in_use; j++) {
         for (int i = 0; i < wafile[fileIdx].nb_page_in_use; i++) {
             if (j != i) {
-                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[pageIdx].wa0) &&
-                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[pageIdx].wa0 + WA_PAGE_SIZE - 1)) {
+                if ((wafile[fileIdx].page[j].wa0 >= wafile[fileIdx].page[i].wa0) &&
+                    (wafile[fileIdx].page[j].wa0 <= wafile[fileIdx].page[i].wa0 + WA_PAGE_SIZE - 1)) {
                     Lib_Log(APP_LIBRMN,APP_FATAL,"%s: overlapping pages i=%d, page[j].wa0=%d, page[i].wa0=%d, page[i].wa0+WA_PAGE_SIZE=%d\n",__func__,i,wafile[fileIdx].page[j].wa0,wafile[fileIdx].page[pageIdx].wa0,wafile[fileIdx].page[pageIdx].wa0+WA_PAGE_SIZE-1);
                     f77name(tracebck)();
                     exit(1);
-- 
2.43.0


From 41a7c442becf2b64de26a27cba85f0aa429768a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 050/159] fix: wa_page_write did not read again a page of which
 the request leaves the last word of the file

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 52ac749..d20b7fd 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -2173,7 +2173,7 @@ static void wa_page_write(
         // a la fin de fichier ou plus, alors il faut relire la page en question
         if ((offset > wafile[ind].page[pageIdx].wa0) ||
             ((offset + nmots != wafile[ind].page[pageIdx].wa0 + WA_PAGE_SIZE) &&
-            (offset + nmots < FGFDT[indf].file_size))) {
+            (offset + nmots <= FGFDT[indf].file_size))) {
 
             wseek(fd, wafile[ind].page[pageIdx].wa0 - 1, SEEK_SET);
             int readbytes;
-- 
2.43.0


From 1ccaeaa0d915a385860f913d6784494ed53883bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 051/159] fix: overlapping memcpy of the pages of the word
 addressable cache

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index d20b7fd..4b78377 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1651,7 +1651,7 @@ static void scrap_page(
     wafile[fl0].nb_page_in_use--;
     free_list[++nfree] = wafile[fl0].page[pg0].page_adr;
     if (pg0 != wafile[fl0].nb_page_in_use) {
-        memcpy(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
+        memmove(&wafile[fl0].page[pg0], &wafile[fl0].page[pg0+1], sizeof(PAGEINFO) * (wafile[fl0].nb_page_in_use - pg0));
     }
     pg0 = wafile[fl0].nb_page_in_use;
     wafile[fl0].page[pg0].wa0 = 0;
-- 
2.43.0


From 7bce0ae77e153c0072aa3f40f72504aeabf95a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:22 +0000
Subject: [PATCH 052/159] fix: direct access status read past its table

---
 src/primitives/c_baseio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 4b78377..df4c9b6 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -1247,7 +1247,7 @@ void c_readda(
     }
 
     if ( pt <= &dastat[MAXWAFILES] ) {
-        if (*pt == iun) {
+        if (pt < &dastat[MAXWAFILES] && *pt == iun) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: consecutive calls to readda without call to checda, iun=%d\n",__func__,iun);
             return;
         }
@@ -1294,7 +1294,7 @@ void c_writda(
         pt++;
     }
     if ( pt <= &dastat[MAXWAFILES] ) {
-        if (*pt == iun) {
+        if (pt < &dastat[MAXWAFILES] && *pt == iun) {
             Lib_Log(APP_LIBRMN,APP_ERROR,"%s: consecutive calls to writda without call to checda, iun=%d\n",__func__,iun);
             return;
         }
-- 
2.43.0


From 524b1c69398135fcc6333748e9a57a5261e38a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 053/159] fix: c_wawrit2 filled one word more than the hole

---
 src/primitives/c_baseio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index df4c9b6..683e16e 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -947,7 +947,7 @@ int c_wawrit2(
     if ( offset > FGFDT[entry].file_size + 1 ) {
         uint32_t scrap[WA_HOLE];
         memset(scrap, 0, sizeof(scrap));
-        qqcwawr(scrap, FGFDT[entry].file_size + 1, offset - FGFDT[entry].file_size, entry);
+        qqcwawr(scrap, FGFDT[entry].file_size + 1, offset - FGFDT[entry].file_size - 1, entry);
     }
     uint32_t * const bufswap = (uint32_t *) buf;
     if (*little_endian) swap_buffer_endianness(bufswap, nwords);
-- 
2.43.0


From 7143dfc1ddd5735bca77f3c6a76720071874db39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 054/159] fix: a unit connected by c_waopen2 had no file type
 (crash in qqqfnom) and too short a name

---
 src/primitives/c_baseio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/c_baseio.c b/src/primitives/c_baseio.c
index 683e16e..c413e57 100644
--- a/src/primitives/c_baseio.c
+++ b/src/primitives/c_baseio.c
@@ -812,8 +812,10 @@ int c_waopen2(
         }
 
         // file is not associated with fnom, file name is set to Wafileiun
-        FGFDT[entry].file_name = malloc(10);
+        FGFDT[entry].file_name = malloc(20);
         sprintf(FGFDT[entry].file_name, "%s%d", "Wafile", iun);
+        FGFDT[entry].file_type = malloc(3);
+        strcpy(FGFDT[entry].file_type, "WA");
         FGFDT[entry].attr.wa = 1;
         FGFDT[entry].attr.rnd = 1;
     } else {
-- 
2.43.0


From f4e75c7c6aa0064a8e0a3534bedf8e3d581c5f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:38 +0000
Subject: [PATCH 055/159] fix: fst_edit_dir changed the directory of read only
 files, followed handles of closed units and accepted page and record numbers
 past the end

---
 src/fstd98/fstd98.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 1d01ae1..d428ec7 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1429,6 +1429,11 @@ int c_fst_edit_dir_plus(
 
     f = file_table[index];
 
+    if ((f == NULL) || (f->iun < 0)) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle=%d\n",__func__,handle);
+        return(ERR_BAD_HNDL);
+    }
+
     if (! f->cur_info->attr.std) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is not a RPN standard file\n",__func__,f->iun);
         return(ERR_NO_FILE);
@@ -1439,6 +1444,11 @@ int c_fst_edit_dir_plus(
         return(ERR_NO_FILE);
     }
 
+    if ((f->header->rwflg == RDMODE) || f->cur_info->attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) not open with write permission\n",__func__,f->iun);
+        return(ERR_NO_WRITE);
+    }
+
     l1 = Min(strlen(typvar), strlen(in_typvar));
     l2 = Min(strlen(nomvar), strlen(in_nomvar));
     l3 = Min(strlen(etiket), strlen(in_etiket));
@@ -1450,13 +1460,17 @@ int c_fst_edit_dir_plus(
     strncpy(grtyp, in_grtyp, l4);
 
     pageno = PAGENO_FROM_HANDLE(handle);
-    if (pageno > f->npages) {
+    if (pageno >= f->npages) {
         /* page is not in current file */
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
         return(ERR_BAD_PAGENO);
     }
 
     recno = RECORD_FROM_HANDLE(handle);
+    if (recno >= (f->dir_page[pageno])->dir.nent) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
+        return(ERR_BAD_HNDL);
+    }
     /*  printf("Debug+ c_fst_edit_dir pageno=%d recno=%d\n", pageno, recno); */
     width = W64TOWD(f->primary_len);
     entry = (f->dir_page[pageno])->dir.entry + recno * width;
-- 
2.43.0


From fd7176f5b3ae0ffd07fd32986730e4c103cbcfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:38 +0000
Subject: [PATCH 056/159] fix: fstinl returned the dimensions of a record that
 is not in the list when there were more records than the list holds

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index d428ec7..5e8db0a 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1938,13 +1938,13 @@ int c_fstinl(
             nijkmax = (*ni) * (*nj) * (*nk);
         }
     }
-    *ni = nimax;
-    *nj = njmax;
-    *nk = nkmax;
     *infon = nfound;
     Lib_Log(APP_LIBFST,APP_DEBUG,"%s: nombre trouve=%d nmax=%d\n",__func__,nfound,nmax);
 
     while ( (handle = c_fstsui(iun, ni, nj, nk)) >= 0 ) nfound++;
+    *ni = nimax;
+    *nj = njmax;
+    *nk = nkmax;
     if (nfound > nmax) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: number of records found (%d) > nmax specified (%d)\n",__func__,nfound,nmax);
         return(-nfound);
-- 
2.43.0


From 8aa39d7b0600e36be6380d1acc4e5dafdbd72d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:38 +0000
Subject: [PATCH 057/159] fix: handles one past the last record of a directory
 page were accepted

---
 src/fstd98/xdf98.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 5cbe474..b2fac95 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -997,7 +997,7 @@ int c_xdfdel(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -1092,7 +1092,7 @@ int c_xdfget2(
             f = file_table[target_page->true_file_index];
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2108,7 +2108,7 @@ int c_xdfprm(
             }
         }
 
-        if (record_number > target_page->dir.nent) {
+        if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
         }
@@ -2238,7 +2238,7 @@ int c_xdfput(
                 }
             }
 
-            if (record_number > f->cur_dir_page->dir.nent) {
+            if (record_number >= f->cur_dir_page->dir.nent) {
                 Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
                 return(ERR_BAD_HNDL);
             }
-- 
2.43.0


From c29fb69d3e89e419277f4d4641b2c395953d49f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 058/159] fix: a file that could not be opened kept its unit
 and its entry of the table of open files

---
 src/fstd98/xdf98.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b2fac95..b5d6ffc 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1709,6 +1709,8 @@ int c_xdfloc2(
 }
 
 
+static int open_xdf_file(int iun, char *mode, word_2 *pri, int npri, word_2 *aux, int naux, char *appl);
+
 //! Open an XDF file.
 int c_xdfopn(
     //! [in] Unit number associated to the file
@@ -1725,6 +1727,42 @@ int c_xdfopn(
     int naux,
     //! [in] Application signature
     char *appl
+) {
+    const int index_fnom = fnom_index(iun);
+    const int was_open = init_package_done && file_index(iun) != ERR_NO_FILE;
+    const int wa_was_open = index_fnom != -1 && FGFDT[index_fnom].open_flag;
+
+    const int ier = open_xdf_file(iun, mode, pri, npri, aux, naux, appl);
+
+    if (ier < 0 && !was_open && iun > 0 && iun <= 999) {
+        // The file could not be opened, release what was reserved for it
+        const int index = file_index(iun);
+        if (index != ERR_NO_FILE) {
+            if (index_fnom != -1 && FGFDT[index_fnom].open_flag && !wa_was_open) c_waclos(iun);
+            for (int i = 0; i < file_table[index]->npages; i++) {
+                free(file_table[index]->dir_page[i]);
+            }
+            init_file(index);
+        }
+    }
+    return ier;
+}
+
+static int open_xdf_file(
+    //! [in] Unit number associated to the file
+    int iun,
+    //! [in] Open mode (READ, WRITE, R-W, CREATE, APPEND)
+    char *mode,
+    //! [in] Primary keys
+    word_2 *pri,
+    //! [in] Number of primary keys
+    int npri,
+    //! [in] Info keys
+    word_2 *aux,
+    //! [in] Number of info keys
+    int naux,
+    //! [in] Application signature
+    char *appl
 ) {
     file_table_entry *f;
     int32_t f_datev;
-- 
2.43.0


From d2113b693ea2c680a5becc86f4a87dc44c2bfba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 059/159] fix: a directory page added to a linked file cut the
 files linked after it off

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b5d6ffc..9258d0f 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -150,6 +150,8 @@ static int32_t add_dir_page(
     } else {
         // Update succesor to preceding page
         (fte->dir_page[fte->npages])->prev_page = fte->dir_page[fte->npages-1];
+        // The pages of a linked file, if any, follow the new page
+        page->next_page = (fte->dir_page[fte->npages-1])->next_page;
         (fte->dir_page[fte->npages-1])->next_page = fte->dir_page[fte->npages];
     }
 
-- 
2.43.0


From cd0c40cec0a5d82e119433bb2a78ec4224a1a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 060/159] fix: deleting a record of a linked file updated the
 first file of the set instead of its own (and ignored read only)

---
 src/fstd98/xdf98.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9258d0f..7429fb2 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -969,16 +969,6 @@ int c_xdfdel(
 
     f = file_table[index];
 
-    if ((f->header->rwflg == RDMODE) || (f->header->rwflg == APPEND)) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is open in read or append mode only\n",__func__);
-        return(ERR_RDONLY);
-    }
-
-    if (f->cur_info->attr.read_only) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is read only\n",__func__);
-        return(ERR_RDONLY);
-    }
-
     if (! f->xdf_seq) {
         if (page_number < f->npages) {
             // Page is in current file
@@ -999,6 +989,13 @@ int c_xdfdel(
             }
         }
 
+        // The record belongs to the file of its page, which may be a linked one
+        f = file_table[target_page->true_file_index];
+        if ((f->header->rwflg == RDMODE) || (f->header->rwflg == APPEND) || f->cur_info->attr.read_only) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is read only or open in append mode only\n",__func__);
+            return(ERR_RDONLY);
+        }
+
         if (record_number >= target_page->dir.nent) {
             Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid record number\n",__func__);
             return(ERR_BAD_HNDL);
@@ -1010,6 +1007,16 @@ int c_xdfdel(
         idtyp = record->idtyp;
     } else {
         // xdf sequential
+        if ((f->header->rwflg == RDMODE) || (f->header->rwflg == APPEND)) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is open in read or append mode only\n",__func__);
+            return(ERR_RDONLY);
+        }
+
+        if (f->cur_info->attr.read_only) {
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: file is read only\n",__func__);
+            return(ERR_RDONLY);
+        }
+
         addr = address_from_handle(handle, f);
         c_waread(f->iun, &header, addr, W64TOWD(1));
         idtyp = header.idtyp;
-- 
2.43.0


From 6622e412a919977b7f839eb602271910641ec55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 061/159] fix: searches starting at a record of a linked file
 stopped at the wrong page or read past the pages of the first file

---
 src/fstd98/xdf98.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 7429fb2..0e3576b 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1670,7 +1670,7 @@ int c_xdfloc2(
     }
 
     if ((handle != -1) && (! f->xdf_seq)) {
-        if (pageno != f->cur_pageno) {
+        {
             if (pageno < f->npages) {
                 // Page is in current file
                 f->cur_dir_page = f->dir_page[pageno];
@@ -1684,7 +1684,7 @@ int c_xdfloc2(
                 }
                 f->cur_dir_page = f->dir_page[f->npages - 1];
                 f->cur_pageno = f->npages - 1;
-                for (i = 0; (i <= pageno - f->cur_pageno) && (f->cur_dir_page); i++) {
+                while (f->cur_pageno < pageno && f->cur_dir_page) {
                     f->cur_dir_page = (f->cur_dir_page)->next_page;
                     f->cur_pageno++;
                 }
@@ -1694,9 +1694,6 @@ int c_xdfloc2(
                     return(ERR_BAD_PAGENO);
                 }
             }
-        } else {
-            // Just to make sure
-            f->cur_dir_page = f->dir_page[f->cur_pageno];
         }
         f->cur_entry = (f->cur_dir_page)->dir.entry + record * W64TOWD(f->primary_len);
         f->page_record = record;
-- 
2.43.0


From 09c24093dce97b51250dc1ca346e4f69aceaea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 062/159] fix: rewriting a record found in a linked file
 corrupted the directory of that file

---
 src/fstd98/fstd98.c |  4 ++--
 src/fstd98/xdf98.c  | 20 ++++++--------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 5e8db0a..fecf5e8 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1090,8 +1090,8 @@ int c_fstecr(
         handle = c_fstinf(iun, &niout, &njout, &nkout, -1, etiket, ip1, ip2, ip3, typvar, nomvar);
         xdf_set_file_filter(iun, old_file_filter); // Put file filter back
 
-        if (handle < 0) {
-            /* append mode for xdfput */
+        if (handle < 0 || PAGENO_FROM_HANDLE(handle) >= fte->npages) {
+            /* append mode for xdfput, a record of a linked file is not rewritten here */
             handle = 0;
         }
     }
diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 0e3576b..b4fbb53 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -2195,7 +2195,7 @@ int c_xdfput(
     //! [in] Buffer to contain record
     buffer_interface_ptr buf)
 {
-    int index, record_number, page_number, i, idtyp, addr, lng, lngw;
+    int index, record_number, page_number, idtyp, addr, lng, lngw;
     int index_from_buf, index_from_iun, write_to_end = 0, nwords;
     int write_addr, err, index_fnom, cluster_size, next_cluster_addr;
     file_table_entry *f, *f_buf;
@@ -2266,20 +2266,11 @@ int c_xdfput(
             if (page_number < f->npages) {
                 // Page is in current file
                 f->cur_dir_page = f->dir_page[page_number];
+                f->cur_pageno = page_number;
             } else {
-                // Page is in a link file
-                if (f->link == -1) {
-                    Lib_Log(APP_LIBFST,APP_ERROR,"%s: page number=%d > last page=%d and file not linked\n",__func__,page_number,f->npages-1);
-                    return(ERR_BAD_PAGENO);
-                }
-                f->cur_dir_page = f->dir_page[f->npages-1];
-                for (i = 0; ((i <= page_number - f->npages) && f->cur_dir_page); i++) {
-                    f->cur_dir_page = (f->cur_dir_page)->next_page;
-                }
-                if (f->cur_dir_page == NULL) {
-                    Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid handle, invalid page number\n",__func__);
-                    return(ERR_BAD_PAGENO);
-                }
+                // Page is in a link file, or does not exist
+                Lib_Log(APP_LIBFST,APP_ERROR,"%s: page number=%d > last page=%d, the record is not in this file\n",__func__,page_number,f->npages-1);
+                return(ERR_BAD_PAGENO);
             }
 
             if (record_number >= f->cur_dir_page->dir.nent) {
@@ -2329,6 +2320,7 @@ int c_xdfput(
             err = add_dir_page(index, WMODE);
             if (err < 0) return err;
             f->cur_dir_page = f->dir_page[f->npages-1];
+            f->cur_pageno = f->npages - 1;
             f->cur_entry = f->cur_dir_page->dir.entry;
         } else {
             f->cur_entry = f->cur_dir_page->dir.entry + f->cur_dir_page->dir.nent * W64TOWD(f->primary_len);
-- 
2.43.0


From b2043595d1764f6af282b41beaf6aa007884d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 063/159] fix: rewinding a new sequential file went to address
 1, the next record written replaced the file header

---
 src/fstd98/xdf98.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b4fbb53..b667ddb 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1848,6 +1848,7 @@ static int open_xdf_file(
             add_dir_page(index, WMODE);
         } else {
             f->cur_addr = f->nxtadr;
+            f->seq_bof = f->nxtadr;
             f->header->fsiz = WDTO64(f->nxtadr -1);
         }
         f->header->rwflg = CREATE;
-- 
2.43.0


From ff5aa5e79c90c5284fa0c74302f7ada14b64d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 064/159] fix: searches in a sequential file stopped at a
 deleted record as if it were the end of the data

---
 src/fstd98/xdf98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index b667ddb..6be4ffa 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3302,7 +3302,8 @@ static uint32_t next_match(
         while (! found) {
             nw = c_waread2(iun, f->head_keys, f->cur_addr, width);
             header = (xdf_record_header *) f->head_keys;
-            if ((header->idtyp >= 112) || (nw < width)) {
+            // A deleted record (idtyp 255) is not a logical end of file
+            if (((header->idtyp >= 112) && (header->idtyp <= 127)) || (nw < width)) {
                 if ((header->idtyp >= 112) && (header->idtyp < 127)) {
                     f->cur_addr += W64TOWD(1);
                 }
-- 
2.43.0


From 597d6cb14cecbd9f371f5ed627fcd17fef60a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 065/159] fix: a checkpoint of a shortened sequential file left
 the old size in use, the next read at the end of the data ended the program

---
 src/fstd98/xdf98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 6be4ffa..615d61b 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -865,6 +865,8 @@ int c_xdfcls(
                 int trunc_to;
                 trunc_to = FGFDT[index_fnom].file_size * sizeof(uint32_t);
                 c_secateur(FGFDT[index_fnom].file_name, trunc_to);
+                // What was cut off can no longer be read (the file stays open after a checkpoint)
+                FGFDT[index_fnom].eff_file_size = FGFDT[index_fnom].file_size;
             }
         }
         f->modified = 0;
-- 
2.43.0


From 52a4739a315826c377dde84cc362fddd7adbe038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 066/159] fix: fstweo wrote its mark on a sequential file
 opened read only and ended the program or reported success

---
 src/fstd98/fstd98.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index fecf5e8..bcc5297 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -3379,6 +3379,11 @@ int c_fstweo(
         return(ERR_BAD_FTYPE);
     }
 
+    if ((f->header->rwflg == RDMODE) || FGFDT[index_fnom].attr.read_only) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: file (unit=%d) is open in read only mode\n",__func__,iun);
+        return(ERR_NO_WRITE);
+    }
+
     VALID(level, 1, 15, "level", "c_fstweo");
     if (level < 15) {
         header64.idtyp = 112 + level;
-- 
2.43.0


From 6aac876a6f7a0d11b8523e8b1464e2818e940d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 067/159] fix: a search from a handle or past a deleted record
 ended before the trailer of the last record of a sequential file, the next
 write replaced it

---
 src/fstd98/xdf98.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 615d61b..9452fc2 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1640,6 +1640,10 @@ int c_xdfloc2(
                 c_waread(iun, &header, f->cur_addr, W64TOWD(1));
             }
             f->cur_addr += W64TOWD(header.lng);
+            if (! f->fstd_vintage_89) {
+                // Skip postfix
+                f->cur_addr += W64TOWD(2);
+            }
         }
     } else if (handle == 0) {
         //! Search from beginning of file
@@ -3402,6 +3406,10 @@ static uint32_t next_match(
 
             if ((header->idtyp < 1) || (header->idtyp > 127)) {
                 f->cur_addr += W64TOWD(header->lng);
+                if ((header->idtyp > 127) && (! f->fstd_vintage_89)) {
+                    // Skip postfix of the deleted record
+                    f->cur_addr += W64TOWD(2);
+                }
                 continue;
             }
             entry = (uint32_t *) f->head_keys;
-- 
2.43.0


From ac483562b6430c40a877a449c5bb1c003bb13a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 068/159] fix: fstinl went past the end of file mark of a
 sequential file that had stopped its search and counted records behind it

---
 src/fstd98/fstd98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index bcc5297..370a9e8 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1941,7 +1941,8 @@ int c_fstinl(
     *infon = nfound;
     Lib_Log(APP_LIBFST,APP_DEBUG,"%s: nombre trouve=%d nmax=%d\n",__func__,nfound,nmax);
 
-    while ( (handle = c_fstsui(iun, ni, nj, nk)) >= 0 ) nfound++;
+    // Count those that were left, unless the search ended already: in a sequential file another one would go past the end of file mark
+    while ( (handle >= 0) && ((handle = c_fstsui(iun, ni, nj, nk)) >= 0) ) nfound++;
     *ni = nimax;
     *nj = njmax;
     *nk = nkmax;
-- 
2.43.0


From 0638ff3908cf071b6be563392db0fcc6bb34454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 069/159] fix: decoding of missing values left the first
 element of a field undecoded

---
 src/fstd98/fst_missing.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 8eecee0..2c4e4d5 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -745,7 +745,7 @@ static void fst_float_decode_missing(
     float max, min;
     fld_float_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = float_missing_val;
         }
@@ -763,7 +763,7 @@ static void fst_double_decode_missing(
     double max, min;
     fld_double_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = double_missing_val;
         }
@@ -781,7 +781,7 @@ static void fst_int_decode_missing(
     int max, min;
     fld_int_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = int_missing_val;
         }
@@ -799,7 +799,7 @@ static void fst_short_decode_missing(
     short max, min;
     fld_short_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = short_missing_val;
         }
@@ -817,7 +817,7 @@ static void fst_byte_decode_missing(
     char max, min;
     fld_byte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = byte_missing_val;
         }
@@ -835,7 +835,7 @@ static void fst_uint_decode_missing(
     unsigned int max, min;
     fld_uint_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = uint_missing_val;
         }
@@ -853,7 +853,7 @@ static void fst_ushort_decode_missing(
     unsigned short max, min;
     fld_ushort_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ushort_missing_val;
         }
@@ -871,7 +871,7 @@ static void fst_ubyte_decode_missing(
     unsigned char max, min;
     fld_ubyte_anal(field, nElems, &max, &min);
 
-    for (int i = 1; i < nElems; i++)  {
+    for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
             field[i] = ubyte_missing_val;
         }
-- 
2.43.0


From 985e4e94928978d97fb38e15659a1b71647ad454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 070/159] fix: code for missing values of signed 1 and 2 byte
 fields was -1 instead of the largest value of nbits bits

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index 2c4e4d5..b8c567b 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -1036,7 +1036,7 @@ static int fst_short_encode_missing(
     int missing = fld_short_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    short plug2 = 0xFFFF;
+    unsigned short plug2 = 0xFFFF;
     if (nbits < 16) {
         plug2 = plug2 >> (16 - nbits);
     }
@@ -1097,7 +1097,7 @@ static int fst_byte_encode_missing(
     int missing = fld_byte_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
 
-    char plug2 = 0xFF;
+    unsigned char plug2 = 0xFF;
     if (nbits < 8) {
         plug2 = plug2 >> (8 - nbits);
     }
-- 
2.43.0


From 2ebc105c78be645b9ec273870d949b1c435d9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 071/159] fix: code for missing values of constant negative or
 entirely missing real fields

---
 src/fstd98/fst_missing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index b8c567b..a60cac9 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -181,6 +181,7 @@
 */
 #include <stdlib.h>
 #include <stdio.h>
+#include <math.h>
 
 #include <App.h>
 #include <rmn/DlInterface.h>
@@ -898,6 +899,8 @@ static int fst_double_encode_missing(
     double max, min;
     int missing = fld_double_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
+    // no valid value at all, max and min are the missing value
+    if (missing == nElems) max = min = 0.0;
 
     double plug;
     if (nbits > 8) {
@@ -910,7 +913,7 @@ static int fst_double_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : max + fabs(max);
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == double_missing_val) {
@@ -937,6 +940,8 @@ static int fst_float_encode_missing(
     float max, min;
     int missing = fld_float_anal(src, nElems, &max, &min);
     if (missing == 0) return 0;
+    // no valid value at all, max and min are the missing value
+    if (missing == nElems) max = min = 0.0;
 
     float plug;
     if (nbits > 8) {
@@ -949,7 +954,7 @@ static int fst_float_encode_missing(
 
     if (plug == max) {
         // field is constant, max == min
-        plug = (max == 0.0) ? 1.0 : max * 2.0;
+        plug = (max == 0.0) ? 1.0 : max + fabs(max);
     }
     for (int i = 0; i < nElems; i++) {
         if (src[i] == float_missing_val) {
-- 
2.43.0


From 59e04ac3780cac5ea61a2f215631160d841dee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 072/159] fix: code for missing values of real fields packed
 with few bits (type 6) collided with the largest values

---
 src/fstd98/fst_missing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index a60cac9..de81e3a 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -894,7 +894,7 @@ static int fst_double_encode_missing(
 ) {
     if (missing_value_used() == 0) return 0;
 
-    const float factor[9] = { 2.0, 1.1, 0.55, 0.28, 0.14, 0.07, 0.035, 0.017, 0.01 };
+    const float factor[9] = { 2.0, 3.1, 1.05, 0.45, 0.21, 0.1, 0.05, 0.025, 0.0125 };
 
     double max, min;
     int missing = fld_double_anal(src, nElems, &max, &min);
@@ -935,7 +935,7 @@ static int fst_float_encode_missing(
 ) {
     if (missing_value_used() == 0) return 0;
 
-    const float factor[9] = { 2.0, 1.1, 0.55, 0.28, 0.14, 0.07, 0.035, 0.017, 0.01 };
+    const float factor[9] = { 2.0, 3.1, 1.05, 0.45, 0.21, 0.1, 0.05, 0.025, 0.0125 };
 
     float max, min;
     int missing = fld_float_anal(src, nElems, &max, &min);
-- 
2.43.0


From c08ba90b706aafc67d81db3e10bf40410ade1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 073/159] fix: extra compression of fields with several levels
 lost all the levels but the first

---
 src/fstd98/fstd98.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 370a9e8..930f58c 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -932,6 +932,8 @@ int c_fstecr(
 
     /* no extra compression if nbits > 16 */
     if ((nbits > 16) && (datyp != 133)) datyp &= 0x7F;
+    /* the compressors only process one level */
+    if ((nk > 1) && (! image_mode_copy)) datyp &= 0x7F;
     /*  if ((datyp < 128) && (extra_compression > 0) && (nbits <= 16)) datyp += extra_compression; */
     if ((datyp == 6) && (nbits > 24)) {
         if (! dejafait_1) {
-- 
2.43.0


From 77d6bbe50978bfb4eb1d03a8e65c655958f70223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 074/159] fix: fields that do not compress lost their missing
 value flag

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 930f58c..8e549fc 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1173,7 +1173,7 @@ int c_fstecr(
                         ni * nj * nk, nbits + 64 * Max(16, nbits), 0, xdf_stride, 1, 0, &tempfloat);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+5]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 1;
+                        stdf_entry->datyp = 1 | is_missing;
                         packfunc(field, &(buffer->data[keys_len]), &(buffer->data[keys_len+3]),
                             ni * nj * nk, nbits, 24, xdf_stride, 1, 0, &tempfloat);
                     } else {
@@ -1310,7 +1310,7 @@ int c_fstecr(
                         /* use an additionnal compression scheme */
                         int compressed_lng = c_armn_compress32((unsigned char *)&(buffer->data[keys_len+1]), (float *)field, ni, nj, nk, nbits);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 5;
+                            stdf_entry->datyp = 5 | is_missing;
                             f77name(ieeepak)(field, &(buffer->data[keys_len]), &f_ni, &f_njnk, &f_minus_nbits,
                                 &f_zero, &f_one);
                         } else {
@@ -1336,7 +1336,7 @@ int c_fstecr(
                     c_float_packer((float *)field, nbits, &(buffer->data[keys_len+1]), &(buffer->data[keys_len+1+header_size]), ni * nj * nk);
                     int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+1+header_size]), ni, nj, nk, nbits, 1);
                     if (compressed_lng < 0) {
-                        stdf_entry->datyp = 6;
+                        stdf_entry->datyp = 6 | is_missing;
                         c_float_packer((float *)field, nbits, &(buffer->data[keys_len]), &(buffer->data[keys_len+header_size]), ni * nj * nk);
                     } else {
                         int nbytes = 16 + (header_size*4) + compressed_lng;
-- 
2.43.0


From 15fa125791af4bea2221bff47a059cb322514ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 075/159] fix: unsigned integer fields that do not compress
 were written one word too far, as 4 byte elements

---
 src/fstd98/fstd98.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 8e549fc..930132f 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1212,9 +1212,18 @@ int c_fstecr(
                         int compressed_lng = armn_compress((unsigned char *)&(buffer->data[keys_len+offset]), ni, nj, nk, nbits, 1);
                         c_armn_compress_setswap(1);
                         if (compressed_lng < 0) {
-                            stdf_entry->datyp = 2;
-                            compact_integer(field, (void *) NULL, &(buffer->data[keys_len+offset]),
-                                ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            /* same layout as uncompressed data type 2 */
+                            stdf_entry->datyp = 2 | is_missing;
+                            if (xdf_short) {
+                                compact_short(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 5);
+                            } else if (xdf_byte) {
+                                compact_char(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 9);
+                            } else {
+                                compact_integer(field, (void *) NULL, &(buffer->data[keys_len]),
+                                    ni * nj * nk, nbits, 0, xdf_stride, 1);
+                            }
                         } else {
                             int nbytes = 4 + compressed_lng;
                             // fprintf(stderr, "Debug+ fstecr armn_compress compressed_lng=%d\n", compressed_lng);
-- 
2.43.0


From a794d68b34464b4d9668ff35b77e728d300b9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 076/159] fix: unsigned byte fields of less than 8 bits per
 element were read as 8 bit elements

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 930132f..e0d7fc0 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2345,7 +2345,7 @@ int c_fstluk(
                             // printf("Debug+ fstluk xdf_byte armn_compress nbytes=%d nelm=%d\n", nbytes, nelm);
                             memcpy_16_8((int8_t *)field, (int16_t *)(buf->data + offset), nelm);
                         } else {
-                            ier = compact_char(field, (void *) NULL, buf->data, nelm, 8, 0, xdf_stride, 10);
+                            ier = compact_char(field, (void *) NULL, buf->data, nelm, stdf_entry.nbits, 0, xdf_stride, 10);
                         }
                     } else {
                         if (stdf_entry.datyp > 128) {
-- 
2.43.0


From 96524e57c9411fe77f9e772e55358e975af1c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 077/159] fix: character fields with several levels lost all
 the levels but the first

---
 src/fstd98/fstd98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index e0d7fc0..c4decdb 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1120,7 +1120,7 @@ int c_fstecr(
                 lngw = ni * nj * nk * nbits;
             }
             if (datyp == 1) lngw += 120;
-            if (datyp == 3) lngw = ni * nj * 8;
+            if (datyp == 3) lngw = ni * nj * nk * 8;
             lngw = (lngw + bitmot - 1) / bitmot;
             for (int i = 0; i < lngw; i++) {
                 buffer->data[keys_len+i] = field[i];
@@ -1255,7 +1255,7 @@ int c_fstecr(
             case 3: case 131:
                 /* character */
                 {
-                    int nc = (ni * nj + 3) / 4;
+                    int nc = (ni * nj * nk + 3) / 4;
                     if (datyp == 131) {
                         Lib_Log(APP_LIBFST,APP_WARNING,"%s: extra compression not available, data type %d reset to %d\n",__func__,stdf_entry->datyp,3);
                         datyp = 3;
@@ -2282,7 +2282,7 @@ int c_fstluk(
         } else {
             int lngw = nelm * stdf_entry.nbits;
             if (stdf_entry.datyp == 1) lngw += 120;
-            if (stdf_entry.datyp == 3) lngw = *ni * *nj * 8;
+            if (stdf_entry.datyp == 3) lngw = nelm * 8;
             if (stdf_entry.datyp == 6) {
                 c_float_packer_params(&header_size, &stream_size, &p1out, &p2out, nelm);
                 lngw = (header_size + stream_size) * 8;
-- 
2.43.0


From c10a8ed2fe33b23584168974a2ea8c95eba76d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 078/159] fix: missing values of double precision fields
 written with data type 801 were not encoded

---
 src/fstd98/fstd98.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index c4decdb..0703cb0 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1134,12 +1134,13 @@ int c_fstecr(
         int sizefactor = 4;
         if (xdf_byte)  sizefactor = 1;
         if (xdf_short) sizefactor = 2;
-        if (xdf_double | IEEE_64) sizefactor = 8;
+        int is_double = xdf_double || (in_datyp == 801);
+        if (is_double || IEEE_64) sizefactor = 8;
         /* put appropriate values into field after allocating it */
         if (is_missing) {
             // allocate self deallocating scratch field
             field = (uint32_t *)alloca(ni * nj * nk * sizefactor);
-            if ( 0 == EncodeMissingValue(field, field_in, ni * nj * nk, in_datyp, nbits, xdf_byte, xdf_short, xdf_double) ) {
+            if ( 0 == EncodeMissingValue(field, field_in, ni * nj * nk, in_datyp, nbits, xdf_byte, xdf_short, is_double) ) {
                 field = field_in;
                 Lib_Log(APP_LIBFST,APP_INFO,"%s: NO missing value, data type %d reset to %d\n",__func__,stdf_entry->datyp,datyp);
                 /* cancel missing data flag in data type */
-- 
2.43.0


From 68fb52977195620b8aec926f5d06c684c2535a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 079/159] fix: fields of compressed data type 129 with less
 than 16 bits were unpacked with the wrong token size

---
 src/packers/compact.tmplc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packers/compact.tmplc b/src/packers/compact.tmplc
index f3a74c9..c8648eb 100644
--- a/src/packers/compact.tmplc
+++ b/src/packers/compact.tmplc
@@ -355,7 +355,8 @@ void *compact_FLOAT_TYPE(
         }
 
         tokenSize = theHeader->bitSize;
-        EffectivePackedTokenSize = tokenSize;
+        /* the caller gives the size of the tokens in the stream when it differs from the header's */
+        if (packedTokenBitSize <= 64) EffectivePackedTokenSize = tokenSize;
         if ( tokenSize != wordSize ) {
             missingToken = ~(-1 << tokenSize);
         } else {
-- 
2.43.0


From 5098746750bda5d3086ff95fb222ec762507db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 080/159] fix: largest values of unsigned fields became missing
 when their missing value code is the missing value itself

---
 src/fstd98/fst_missing.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/fst_missing.c b/src/fstd98/fst_missing.c
index de81e3a..0bd07be 100644
--- a/src/fstd98/fst_missing.c
+++ b/src/fstd98/fst_missing.c
@@ -834,7 +834,8 @@ static void fst_uint_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned int max, min;
-    fld_uint_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (fld_uint_anal(field, nElems, &max, &min) > 0) return;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -852,7 +853,8 @@ static void fst_ushort_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned short max, min;
-    fld_ushort_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (fld_ushort_anal(field, nElems, &max, &min) > 0) return;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
@@ -870,7 +872,8 @@ static void fst_ubyte_decode_missing(
     if (missing_value_used() == 0) return;
 
     unsigned char max, min;
-    fld_ubyte_anal(field, nElems, &max, &min);
+    // the code may be the missing value itself
+    if (fld_ubyte_anal(field, nElems, &max, &min) > 0) return;
 
     for (int i = 0; i < nElems; i++)  {
         if (field[i] == max) {
-- 
2.43.0


From 0ee16c590a1cd27d7e301709fda1d8dd6a12e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 081/159] fix: values using all 16 bits (or bytes using all 8
 bits) of compressed unsigned integer fields were sign extended

---
 src/fstd98/fstd98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 0703cb0..f8cacc5 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -115,7 +115,7 @@ static void str_cp_init(char * const dst, const int dstLen, const char * const s
 
 static void memcpy_8_16(int16_t *p16, int8_t *p8, int nb) {
     for (int i = 0; i < nb; i++) {
-        *p16++ = *p8++;
+        *p16++ = (uint8_t) *p8++;
     }
 }
 
@@ -128,7 +128,7 @@ static void memcpy_16_8(int8_t *p8, int16_t *p16, int nb) {
 
 
 static void memcpy_16_32(int32_t *p32, int16_t *p16, int nbits, int nb) {
-    int16_t mask = ~ (-1 << nbits);
+    int32_t mask = ~ (-1 << nbits);
     for (int i = 0; i < nb; i++) {
         *p32++ = *p16++ & mask;
     }
-- 
2.43.0


From b16717a2ab347c7d8fe671f517e575fd6ad19156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 082/159] fix: client timeouts of 1 to 3 seconds were negated
 (invalid) and those of unregistered channels overwrote each other

---
 src/primitives/client_timeout.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/primitives/client_timeout.c b/src/primitives/client_timeout.c
index 860a386..e55ca83 100644
--- a/src/primitives/client_timeout.c
+++ b/src/primitives/client_timeout.c
@@ -77,9 +77,10 @@ void set_client_timeout(
         }
     }
 
-    if ( found < 0 ) {
+    if ( found < 0 && ichan < MAX_CHANNELS ) {
         ctimeout[ichan].client_chan = fclient;
         ctimeout[ichan].timeout = timeout > default_timeout ? default_timeout : timeout;
+        ichan++;
     }
 }
 
@@ -90,9 +91,9 @@ int get_client_timeout(
     //! [in] Channel descriptor
     const int fclient
 ) {
-    for (int i = 0; i < MAX_CHANNELS; i++ ) {
+    for (int i = 0; i < ichan; i++ ) {
         if ( fclient == ctimeout[i].client_chan ) {
-            int new_timeout = ctimeout[i].timeout > 3 ? ctimeout[i].timeout : -ctimeout[i].timeout;
+            int new_timeout = ctimeout[i].timeout >= 0 ? ctimeout[i].timeout : -ctimeout[i].timeout;
             return new_timeout;
         }
     }
@@ -107,7 +108,7 @@ int get_timeout_value(
     //! [in] Channel descriptor
     const int fclient
 ) {
-    for (int i = 0; i < MAX_CHANNELS; i++ ) {
+    for (int i = 0; i < ichan; i++ ) {
         if ( fclient == ctimeout[i].client_chan ) {
             return ctimeout[i].timeout ;
         }
-- 
2.43.0


From ffc0e2b124c4a3eaff9b830c7e9e0db03a1b8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 083/159] fix: read_record used uninitialised lengths when the
 channel was closed or silent, and lost its place after an empty record

---
 src/primitives/gossip_sock.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 42a6655..2067bac 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1061,10 +1061,11 @@ int send_command_to_server(
 
 //! Get a 32 bit integer through a network socket
 //! (BIG-ENDIAN) order can also be used for a float as long as sizeof(float) is equal to sizeof(int) and both are equal to 4
-int32_t get_int32_from_channel(
-    int channel
+static int read_int32_from_channel(
+    int channel,
+    int32_t *value
 ) {
-    int32_t to_receive;
+    int32_t to_receive = 0;
     int ier;
     char *tagptr;
 
@@ -1099,7 +1100,18 @@ int32_t get_int32_from_channel(
     }
 
     // This value is necessary for read_record since it tells the size of the data block to read
-    return to_receive;
+    *value = to_receive;
+    return ier < 0 ? -1 : 0;
+}
+
+//! Read an integer from a channel
+//! \return Value read, 0 if nothing could be read
+int32_t get_int32_from_channel(
+    int channel
+) {
+    int32_t value = 0;
+    if (read_int32_from_channel(channel, &value) != 0) return 0;
+    return value;
 }
 
 //! Write a 32 bit integer through a network socket
@@ -2064,7 +2076,8 @@ void *read_record(
     unsigned long long tt1, tt2, clk1, clk2;
     tt1 = time_base();
 #endif
-    int length1 = get_int32_from_channel(fclient);
+    int32_t length1 = 0;
+    const int tag1_status = read_int32_from_channel(fclient, &length1);
 #ifdef DEBUG
     tt2 = time_base() - tt1;
     fprintf(stderr, "\n read_record(): get 1st int = %d from socket Wall Clock = %llu bigticks,", length1, tt2);
@@ -2074,8 +2087,12 @@ void *read_record(
     fflush(stderr);
 #endif
 
-    if ( length1 == 0 ) {
-        swallow_data(fclient, length1);
+    if ( tag1_status != 0 || length1 <= 0 ) {
+        if (tag1_status == 0 && length1 == 0) {
+            // An empty record is refused, its 2nd length must not be taken for the beginning of the next one
+            int32_t length3;
+            read_int32_from_channel(fclient, &length3);
+        }
         send_ack_nack(fclient, NOT_OK);
         set_timeout_signal(fclient, true);
         fprintf(stderr, "\n gossip_sock::read_record: Problem reading TAG1 length1= %d", length1);
@@ -2137,7 +2154,8 @@ void *read_record(
 #ifdef DEBUG
     tt1 = time_base();
 #endif
-  int length3 = get_int32_from_channel(fclient);
+    int32_t length3 = 0;
+    const int tag2_status = read_int32_from_channel(fclient, &length3);
 #ifdef DEBUG
     tt2 = time_base() - tt1;
     fprintf(stderr,"\n read_record(): get 2nd length TAG = %d from socket Wall Clock = %llu bigticks,", length3, tt2);
@@ -2166,7 +2184,7 @@ void *read_record(
 
 
     // check length values
-    if (length1 != length3) {
+    if (tag2_status != 0 || length1 != length3) {
         fprintf(stderr, "\n read_record: Problem TAGS read length1 = %d NOT EQUAL to length3 = %d \n", length1, length3);
         fflush(stderr);
         send_ack_nack(fclient, NOT_OK);
-- 
2.43.0


From a5dfa6f5e9727f6dd40505084c756a865e12f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 084/159] fix: after refusing a record that is too long,
 read_record took its second length for the next record

---
 src/primitives/gossip_sock.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 2067bac..1659501 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2034,8 +2034,8 @@ static int swallow_data(int fd, int nbytes)
 
   while (nbytes > 0)
     {
-      bytes_read = read(fd, buffer, sizeof(buffer) < nbytes ? sizeof(buffer) : nbytes);
-      if(bytes_read <= 0) return(-nbytes);
+      bytes_read = sizeof(buffer) < nbytes ? sizeof(buffer) : nbytes;
+      if(read_ft_nonblocking_socket(fd, buffer, bytes_read) != 0) return(-nbytes);
       nbytes -= bytes_read;
     }
 
@@ -2103,7 +2103,8 @@ void *read_record(
     if ( length1 > maxlength * tokensize && maxlength > 0 ) {
         fprintf(stderr, "\n gossip_sock::read_record: Problem reading TAG1 length: \"%d\" is greater than max requested: \"%d\" \n", length1, maxlength);
         fflush(stderr);
-        if (swallow_data(fclient, length1) != 0) {
+        int32_t length3;
+        if (swallow_data(fclient, length1) != 0 || read_int32_from_channel(fclient, &length3) != 0) {
             fprintf(stderr, "\n gossip_sock::read_record() : cannot get enough data \n");
             fflush(stderr);
         }
-- 
2.43.0


From 172694d4adc5c0aa3354c1dcad8bb4aef1b0d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 085/159] fix: read_record freed the caller's buffer when the
 two lengths of a record differ

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 1659501..cee9720 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2192,7 +2192,7 @@ void *read_record(
         /* set_timeout_signal(fclient, false); */
         set_timeout_signal(fclient, true);
 
-        if (records != NULL && records2 != NULL) free(records2);
+        if (records == NULL && records2 != NULL) free(records2);
         return NULL;
     }
 
-- 
2.43.0


From 356ab892a6654bef6d5b02fa4f6ba47bb82a9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 086/159] fix: read_record sized its buffer with a variable
 shared between concurrent channels

---
 src/primitives/gossip_sock.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index cee9720..408476d 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -73,7 +73,6 @@
 
 static int endian_flag = 1;
 static char *little_endian = (char *)&endian_flag;
-static int maxsize = 1024;
 static int must_init_signal = 1;
 static int timeout = false;
 static char gossip_default_dir[] = "mgi";
@@ -2112,12 +2111,8 @@ void *read_record(
         return NULL;
     }
 
-    if ( length1 > maxsize ) {
-        maxsize = length1;
-    }
-
     char *records2 = NULL;
-    records2 = (records == NULL) ? malloc(maxsize + 2 * sizeof(int)) : records;
+    records2 = (records == NULL) ? malloc(length1 + 2 * sizeof(int)) : records;
     if (records2 == NULL) {
         fprintf(stderr, "\n gossip_sock::read_record: cannot allocate memory for data with size = %d\n", length1);
         fflush(stderr);
-- 
2.43.0


From 670e96d77b49b6c144e4d245cb22551c073fa6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 087/159] fix: write_record reported success for records the
 peer refused or never got, and left the data swapped after a failure

---
 src/primitives/gossip_sock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 408476d..4805def 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1952,6 +1952,7 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
 
   if(ier != 0)
     {
+      check_swap_records(record, size, tokensize); /* swap back if necessary */
       send_ack_nack(fclient, NOT_OK);
       set_timeout_signal(fclient, true);
       return ier;
@@ -2011,7 +2012,7 @@ int write_record(int fclient, void *record, int size, int tokensize)  /*   %ENTR
 #endif
 
   /****************write: get ACK_NACK******************/
-  get_ack_nack(fclient);
+  ier = get_ack_nack(fclient);
   /****************write: get ACK_NACK******************/
 
 #ifdef DEBUG
-- 
2.43.0


From 8252d383aae7bf5142cdf1a484a51dbd0c87b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 088/159] fix: reading from a silent blocking channel never
 timed out

---
 src/primitives/gossip_sock.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 4805def..ea12280 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1529,6 +1529,15 @@ int read_ft_nonblocking_socket(
         tv.tv_usec = 0;
         int iers = select(fd+1, &rfds, NULL, NULL, &tv);
 
+        if (iers < 0 && errno == EINTR) continue;
+
+        if (iers == 0) {
+            // timed out without receiving any data
+            fprintf(stderr, "\n gossip_sock::read_ft_nonblocking_socket: timeout, %d bytes bytesread\n", total);
+            fflush(stderr);
+            return -1;
+        }
+
 #ifdef INFOLEVEL1
         fprintf(stderr, "\n read_ft_nonblocking_socket()  iter=%d, select returns iers=%d \n",iter,iers);
         fflush(stderr);
@@ -1644,6 +1653,15 @@ while (remaining > 0)
     tv.tv_usec = 0;
     iers = select(fd+1, &rfds, NULL, NULL, &tv);
 
+    if (iers < 0 && errno == EINTR) continue;
+
+    if (iers == 0) {
+        // timed out without receiving any data
+        fprintf(stderr, "\n gossip_sock::read_ft_nonblocking_socket: timeout, %d bytes bytesread\n", total);
+        fflush(stderr);
+        return -1;
+    }
+
     bytesread = read (fd, ptr, remaining);
 
     if (bytesread < 0) {
-- 
2.43.0


From be551c68b99a9fa618c32dc078ec2c928797e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 089/159] fix: store_channel_data left the end of older, longer
 data in the file

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index ea12280..1263651 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2256,7 +2256,7 @@ int store_channel_data(char *buffer, int nbytes, char *file_name)  /*   %ENTRY%
   fprintf(stderr, "gossip_sock::store_channel_data(), buf = %s\n", buf);
 #endif
 
-    if((fd = open(buf, O_WRONLY + O_CREAT, 0700)) == -1)
+    if((fd = open(buf, O_WRONLY | O_CREAT | O_TRUNC, 0700)) == -1)
     {
       fprintf(stderr, "Can't Open or Create Channel Data file\n");
       return -1;
-- 
2.43.0


From 81bfd15072c028651027806ab032ed2083db0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 090/159] fix: a signal while waiting on a non-blocking channel
 was reported as a fatal error

---
 src/primitives/gossip_sock.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index 1263651..a5e450b 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -1385,7 +1385,9 @@ while (n > 0)
 
             iers = select(fd+1, NULL, &wfds, NULL, &tv);
 
-            if (iers < 0) {
+            if (iers < 0 && errno == EINTR) {
+                continue; /* interrupted, try again */
+            } else if (iers < 0) {
                 /* error; log/die/whatever and close() socket */
                fprintf(stderr, "\n gossip_sock::write_ft_nonblocking_socket()  iter=%d,  iers= %d FATAL error on select EAGAIN errno= (%d, %s) %d bytes written\n",iter,iers, errno,strerror(errno),total);
                fflush(stderr);
@@ -1564,7 +1566,9 @@ int read_ft_nonblocking_socket(
                 iers = select(fd + 1, &rfds, NULL, NULL, &tv);
                 fprintf(stderr, "\n read_ft_nonblocking_socket()  select returns iers=%d \n",iers);
 
-                if (iers < 0) {
+                if (iers < 0 && errno == EINTR) {
+                    continue; /* interrupted, try again */
+                } else if (iers < 0) {
                     // error; log/die/whatever and close() socket
                     fprintf(stderr, "\n gossip_sock::read_ft_nonblocking_socket()  iter=%d,  iers= %d FATAL error on select EAGAIN errno= (%d,%s) %d bytes bytesread\n", iter, iers, errno, strerror(errno), total);
                     fflush(stderr);
@@ -1677,7 +1681,9 @@ while (remaining > 0)
 
             iers = select(fd+1, &rfds, NULL, NULL, &tv);
 
-            if (iers < 0) {
+            if (iers < 0 && errno == EINTR) {
+                continue; /* interrupted, try again */
+            } else if (iers < 0) {
                 /* error; log/die/whatever and close() socket */
                fprintf(stderr, "gossip_sock::read_ft_nonblocking_socket_count()  iter=%d,  iers= %d FATAL error on select EAGAIN errno= (%d,%s) %d bytes bytesread\n",iter,iers, errno,strerror(errno),total);
                fflush(stderr);
-- 
2.43.0


From 0e4f090017076d2165c32dd38ae751336fa345e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:33 +0000
Subject: [PATCH 091/159] fix: send_command_to_server2 sent only the part of
 the command that one write call took

---
 src/primitives/gossip_sock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index a5e450b..aee199c 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2507,7 +2507,8 @@ int send_command_to_server2(int fclient, const char * const buffer) {
     }
 
     pack_cmd(buffer, tmpbuf);
-    int nbytes = write(fclient, tmpbuf, strlen(buffer) + sizeof(int));
+    int nbytes = strlen(buffer) + sizeof(int);
+    if (write_ft_nonblocking_socket(fclient, tmpbuf, nbytes) != 0) nbytes = -1;
 
     int reply = get_ack_nack(fclient);
 
-- 
2.43.0


From 7e87e7fc47080f2dd0ff572dd322ba66b88d55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 092/159] fix: XDF buffers were written past their end, their
 dimension includes the 9 words before the record

---
 src/fstd98/xdf98.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9452fc2..4942d5e 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -265,6 +265,15 @@ void build_fstd_prim_keys(
 }
 
 
+//! Number of words of record that a buffer can hold, its dimension includes the words that precede the record
+static inline int buffer_capacity(
+    //! [in] Buffer
+    const buffer_interface_ptr buf
+) {
+    return (int)buf->nwords - (int)(buf->data - (uint32_t *)buf);
+}
+
+
 //! Pack generic info keys into buffer or get info keys from buffer depending on mode argument.
 static void build_gen_info_keys(
     //! [inout] Buffer to contain the keys
@@ -670,7 +679,7 @@ int c_xdfadd(
     buffer_interface_ptr buf = (buffer_interface_ptr) buffer;
     int index_word = buf->nbits / (sizeof(uint32_t) * 8);
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if ((index_word + nbwords) > buffer_capacity(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
@@ -1155,7 +1164,7 @@ int c_xdfget2(
             }
         }
     }
-    if (lngw > (nw - RECADDR +1)) {
+    if (lngw > nw - (int)(buf->data - (uint32_t *)buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: dimension of buf (%d) < record size (%d)\n",__func__,nw,lngw);
         return(ERR_BAD_DIM);
     }
@@ -1438,7 +1447,7 @@ int c_xdfins(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((last_ind + nbwords - 1) > buf->nwords) {
+    if ((last_ind + nbwords) > buffer_capacity(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
     }
-- 
2.43.0


From 0517275a16f5f512a4c77b547041d65987564e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 093/159] fix: c_xdfins and c_xdfcut touched one word past the
 record

---
 src/fstd98/xdf98.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 4942d5e..9ca35cb 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -939,10 +939,10 @@ int c_xdfcut(
 
    // Move buffer content nbwords to the left
    if (last_ind != index_word) {
-      for (i=index_word; i <= last_ind-nbwords; i++) {
+      for (i=index_word; i < last_ind-nbwords; i++) {
          buf->data[i] = buf->data[i+nbwords];
       }
-      for( ; i <= last_ind; i++) {
+      for( ; i < last_ind; i++) {
          buf->data[i] = 0 ;
       }
    }
@@ -1454,7 +1454,7 @@ int c_xdfins(
 
     // Move buffer content nbwords to the right for insertion
     if (last_ind != index_word) {
-        for (i = last_ind; i >= index_word; i--) {
+        for (i = last_ind - 1; i >= index_word; i--) {
             buf->data[i + nbwords] = buf->data[i];
         }
     }
-- 
2.43.0


From a2ecb505bf069f975c811abe38b992917f017de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 094/159] fix: c_xdfcut and c_xdfrep refused characters (datyp
 3)

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9ca35cb..198f003 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -925,7 +925,7 @@ int c_xdfcut(
       return(ERR_BAD_ADDR);
    }
 
-   if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+   if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
       Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
       return(ERR_BAD_DATYP);
    }
@@ -2454,7 +2454,7 @@ int c_xdfrep(
         return(ERR_BAD_ADDR);
     }
 
-    if ((datyp == 3) || (datyp == 5) && (nbits != 8)) {
+    if (((datyp == 3) || (datyp == 5)) && (nbits != 8)) {
         Lib_Log(APP_LIBFST,APP_FATAL,"%s: nbits must be 8 for datyp %d\n",__func__,datyp);
         return(ERR_BAD_DATYP);
     }
-- 
2.43.0


From 067dd9c30af695c59dca28830f89f57c5d775aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 095/159] fix: positions outside of the record were accepted by
 c_xdfins, c_xdfcut, c_xdfrep and c_xdfxtr

---
 src/fstd98/xdf98.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 198f003..9f3b1c7 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -937,6 +937,11 @@ int c_xdfcut(
 
    last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
+   if (index_word < (int)buf->data_index || index_word + nbwords > last_ind) {
+      Lib_Log(APP_LIBFST,APP_ERROR,"%s: position outside of the record\n",__func__);
+      return(ERR_BAD_ADDR);
+   }
+
    // Move buffer content nbwords to the left
    if (last_ind != index_word) {
       for (i=index_word; i < last_ind-nbwords; i++) {
@@ -1447,6 +1452,11 @@ int c_xdfins(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
+    if (index_word < (int)buf->data_index || index_word > last_ind) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: position outside of the record\n",__func__);
+        return(ERR_BAD_ADDR);
+    }
+
     if ((last_ind + nbwords) > buffer_capacity(buf)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for insertion\n",__func__);
         return(ERR_BAD_DIM);
@@ -2466,7 +2476,7 @@ int c_xdfrep(
 
     last_ind = buf->record_index + (buf->nbits / (sizeof(uint32_t) *8));
 
-    if ((index_word + nbwords - 1) > buf->nwords) {
+    if (index_word < (int)buf->data_index || (index_word + nbwords) > last_ind) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for replacemen\n",__func__);
         return(ERR_BAD_DIM);
     }
@@ -2916,6 +2926,11 @@ int c_xdfxtr(
 
     index_word = buf->data_index + (bitpos / (sizeof(uint32_t) * 8));
 
+    if (index_word < (int)buf->data_index || index_word + nbwords > (int)(buf->record_index + buf->nbits / (sizeof(uint32_t) * 8))) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: position outside of the record\n",__func__);
+        return(ERR_BAD_ADDR);
+    }
+
     // extract data
     switch (datyp) {
         case 0:
-- 
2.43.0


From 1d40f86e0a65e98391d1c1391b25eb307a602bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 096/159] fix: c_xdfins and c_xdfrep changed the buffer before
 refusing an invalid datyp

---
 src/fstd98/xdf98.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index 9f3b1c7..a30d8e1 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -1462,6 +1462,14 @@ int c_xdfins(
         return(ERR_BAD_DIM);
     }
 
+    switch (datyp) {
+        case 0: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9:
+            break;
+        default:
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid datyp=%d\n",__func__,datyp);
+            return(ERR_BAD_DATYP);
+    }
+
     // Move buffer content nbwords to the right for insertion
     if (last_ind != index_word) {
         for (i = last_ind - 1; i >= index_word; i--) {
@@ -2481,6 +2489,14 @@ int c_xdfrep(
         return(ERR_BAD_DIM);
     }
 
+    switch (datyp) {
+        case 0: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9:
+            break;
+        default:
+            Lib_Log(APP_LIBFST,APP_ERROR,"%s: invalid datyp=%d\n",__func__,datyp);
+            return(ERR_BAD_DATYP);
+    }
+
     // initialize region to 0
     for (i = 0; i < nbwords; i++){
         buf->data[index_word+i] = 0;
-- 
2.43.0


From 853683c13f210469de96cc85001523266e66255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 097/159] fix: the lengths of the keys of a new XDF file were
 added up one bit too short each

---
 src/fstd98/xdf98.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index a30d8e1..ac1299e 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -3053,7 +3053,7 @@ static int create_new_xdf(
             file->keys[ikle].lcle = lcle;
             file->keys[ikle].tcle = tcle;
             file->keys[ikle].reserved = 0;
-            lprm += lcle;
+            lprm += lcle + 1;
             i++;
             ikle++;
         }
@@ -3074,7 +3074,7 @@ static int create_new_xdf(
             file->keys[ikle].lcle=lcle;
             file->keys[ikle].tcle=tcle;
             file->keys[ikle].reserved=0;
-            laux += lcle;
+            laux += lcle + 1;
             i++; ikle++;
         }
    }
-- 
2.43.0


From e939139614fe21d1f2c881ff67e6f36349fffeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 098/159] fix: c_xdfput overflowed its list of keys when a file
 has more than 32

---
 src/fstd98/xdf98.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/xdf98.c b/src/fstd98/xdf98.c
index ac1299e..5653429 100644
--- a/src/fstd98/xdf98.c
+++ b/src/fstd98/xdf98.c
@@ -2234,7 +2234,8 @@ int c_xdfput(
     int write_addr, err, index_fnom, cluster_size, next_cluster_addr;
     file_table_entry *f, *f_buf;
     file_record *record, *bufrec;
-    max_dir_keys primk, argument_not_used, mskkeys;
+    uint32_t primk[MAX_KEYS];
+    max_dir_keys argument_not_used, mskkeys;
     xdf_record_header header64;
     burp_record *debug_record;
     postfix_seq postfix;
-- 
2.43.0


From 069ea88c5695146a75075b59657bf564d4594806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 099/159] fix: mgi_write reported success for a record that the
 server had refused

---
 src/primitives/mgilib2.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 2f7df4c..830e5cb 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -217,7 +217,7 @@ static void removepidfile() {
 
 //! Fill the write buffer of initialized channel "chan" on the server
 static int bwrite ( int chan, void *buffer, int nelem, char *dtype ) {
-    int ier;
+    int ier = 0;
 
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: COMM1-W send_command_to_server() channel: %d\n",__func__,chn[chan].gchannel);
 
@@ -238,14 +238,13 @@ static int bwrite ( int chan, void *buffer, int nelem, char *dtype ) {
 
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: COMM8-R get_ack_nack()\n",__func__);
 
-    if (get_ack_nack(chn[chan].gchannel)) {
+    const int record_status = ier;
+    if (get_ack_nack(chn[chan].gchannel) || record_status != 0) {
         Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: COMM8-R get_ack_nack() error on channel: %d\n",__func__,chn[chan].gchannel);
         return -1;
-    } else {
-        return 0;
     }
 
-    return ier;
+    return 0;
 }
 
 
-- 
2.43.0


From 66c3b02aaecb45532a19822d07c36e9248bbb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 100/159] fix: a MGI channel opened for reading became a writer
 when the first connection failed

---
 src/primitives/mgilib2.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 830e5cb..4338e71 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -71,7 +71,7 @@ static void removepidfile();
 static void strcopy(char *s, char *t, int charlen);
 static int validchan(int chan);
 static int bwrite(int chan, void *buffer, int nelem, char *dtype);
-int retry_connect(int chan);
+static int retry_connect(int chan, const char *mode);
 int32_t f77name (mgi_init) (const char * const channel_name, F2Cl lname);
 int32_t f77name (mgi_open) (const int32_t * const f_chan, const char * const mode, F2Cl lmode);
 int32_t f77name (mgi_read) (const int32_t * const f_chan, void *data, const int32_t * const f_nelm, const char * const dtype, F2Cl ltype);
@@ -357,14 +357,14 @@ int32_t f77name (mgi_open) (
         chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "write" );
 
         if ( chn[chan].gchannel < 0 ) {
-            chn[chan].gchannel = retry_connect( chan );
+            chn[chan].gchannel = retry_connect( chan, "write" );
         }
 
     } else if (*mode == 'R') {
         chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "read" );
 
         if ( chn[chan].gchannel < 0 ) {
-            chn[chan].gchannel = retry_connect( chan );
+            chn[chan].gchannel = retry_connect( chan, "read" );
         }
     } else if (*mode == 'S') {
         /* store mode (for restart files)*/
@@ -405,9 +405,11 @@ int mgi_get_retry_connect(
 
 
 //! Retry to establish the connexion.  Wait 10 seconds between attempts.
-int retry_connect(
+static int retry_connect(
     //! [in] Channel number
-    int chan
+    int chan,
+    //! [in] Mode of the connexion ("read" or "write")
+    const char *mode
 ) {
     int PING_INTERVAL = 10;
     int maxAttempts = mgi_get_retry_connect(chan);
@@ -416,7 +418,7 @@ int retry_connect(
     while ( chn[chan].gchannel < 0 && attemptsRemaining > 0 ) {
         sleep( PING_INTERVAL );
         Lib_Log(APP_LIBRMN,APP_INFO,"%s: Connection to Server Failed,  retry to connect: \"%d/%d\n",__func__,maxAttempts-attemptsRemaining+1,maxAttempts);
-        chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "write" );
+        chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, mode );
         attemptsRemaining--;
     }
     return chn[chan].gchannel;
-- 
2.43.0


From 32077eb7e9ca2b5cdfdf1222560feb245843a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 101/159] fix: mgi_read with an unknown type left the channel
 in the middle of a transfer

---
 src/primitives/mgilib2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 4338e71..6066a79 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -545,6 +545,11 @@ int32_t f77name (mgi_read) (
         return DATA_LENGTH_ERROR;
     }
 
+    if (*dtype != 'I' && *dtype != 'R' && *dtype != 'D' && *dtype != 'C') {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Unknown data type: %c on channel %s\n",__func__,*dtype,chn[chan].name);
+        return READ_TYPE_ERROR;
+    }
+
     bzero(buffer, nelem);
 
     int ier = send_command_to_server(chn[chan].gchannel, "READ");
-- 
2.43.0


From 3edabce918aa2cd907c14e280bb8f2a238e3f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 102/159] fix: MGI channels that are not open, or do not exist,
 were read and written

---
 src/primitives/mgilib2.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index 6066a79..d8783ac 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -186,7 +186,7 @@ static void strcopy(
 static int validchan(
     int chan
 ) {
-    if ( chn[chan].buffer == NULL ) return -1;
+    if ( chan < 1 || chan > ichan || chan >= MAX_CHANNELS ) return -1;
     return 0;
 }
 
@@ -353,6 +353,11 @@ int32_t f77name (mgi_open) (
 ) {
     int chan = (int) *f_chan;
 
+    if (validchan(chan) < 0) {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Invalid channel: %d\n",__func__,chan);
+        return CONNECTION_ERROR;
+    }
+
     if (*mode == 'W') {
         chn[chan].gchannel = connect_to_subchannel_by_name( get_gossip_dir(0), chn[chan].name, "write" );
 
@@ -449,6 +454,11 @@ int32_t f77name (mgi_write) (
     nelem = (int) *f_nelem;
     char *tmpstr;
 
+    if (validchan(chan) < 0) {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Invalid channel: %d\n",__func__,chan);
+        return WRITE_ERROR;
+    }
+
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: data type = %c, elts Nbr = %d, subchannel = %s\n",__func__,dtype[0],nelem,chn[chan].name);
 
     if ( nelem <= 0 ) {
@@ -456,7 +466,7 @@ int32_t f77name (mgi_write) (
         return WRITE_ERROR;
     }
 
-    if ( chn[chan].gchannel < 0 ) {
+    if ( chn[chan].gchannel <= 0 ) {
         Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Cannot connect to server using descriptor: \"%d\"\n",__func__,chn[chan].gchannel);
         return WRITE_ERROR;
     }
@@ -515,6 +525,7 @@ void f77name (mgi_set_timeout) (
     //! [in] Timeout ins seconds
     int32_t *timeout
 ) {
+    if (validchan((int) *chan) < 0) return;
     set_client_timeout(chn[(int) *chan].gchannel, (int) *timeout);
 }
 
@@ -538,6 +549,11 @@ int32_t f77name (mgi_read) (
     int chan = (int) *f_chan;
     int nelem = (int) *f_nelem;
 
+    if (validchan(chan) < 0 || chn[chan].gchannel <= 0) {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Channel %d is not open\n",__func__,chan);
+        return READ_ERROR;
+    }
+
     Lib_Log(APP_LIBRMN,APP_DEBUG,"%s: data type = %c, elts Nbr = %d, strlen = %d,  subchannel = %s\n",__func__,dtype[0],nelem,ltype,chn[chan].name);
 
     if (nelem <= 0) {
-- 
2.43.0


From fae8830d0328bc44c82b5aa8f0f69a2ed00d743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 103/159] fix: mgi_clos and mgi_term left the channels open and
 usable

---
 src/primitives/mgilib2.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index d8783ac..c8b343d 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -257,9 +257,16 @@ int32_t f77name (mgi_clos) (
     char buf[1024];
     int chan = (int) *f_chan;
 
-    if (chn[chan].gchannel != 0) {
+    if (chan < 1 || chan > ichan || chan >= MAX_CHANNELS) {
+        Lib_Log(APP_LIBRMN,APP_ERROR,"%s: Invalid channel: %d\n",__func__,chan);
+        return -1;
+    }
+
+    if (chn[chan].gchannel > 0) {
         snprintf(buf, 1023, "%s %s", "END", chn[chan].name);
         ier = send_command(buf);
+        close(chn[chan].gchannel);
+        chn[chan].gchannel = 0;
         Lib_Log(APP_LIBRMN,APP_INFO,"%s: subchannel \"%s\" is closed\n",__func__,chn[chan].name);
     }
 
@@ -275,9 +282,11 @@ int32_t f77name (mgi_clos) (
 int32_t f77name (mgi_term) () {
     int ier = -1;
 
-    for (int chan = 0; chan <= ichan; chan++) {
-        if (chn[chan].name && strcmp((char *)chn[chan].name, "") && chn[chan].gchannel > 0) {
+    for (int chan = 0; chan <= ichan && chan < MAX_CHANNELS; chan++) {
+        if (strcmp((char *)chn[chan].name, "") && chn[chan].gchannel > 0) {
             ier = send_command("END");
+            close(chn[chan].gchannel);
+            chn[chan].gchannel = 0;
             Lib_Log(APP_LIBRMN,APP_INFO,"%s: bchannel \"%s\" has been closed\n",__func__,chn[chan].name);
 
             if (chn[chan].buffer) {
-- 
2.43.0


From 80a46e217e70c9e99cbc3e343798905b7c75b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 104/159] fix: commands to the default gossip server (END,
 STATUS) were never delivered

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index aee199c..df334e1 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2412,7 +2412,7 @@ int read_data_file(char *file_name, char *buffer, int size)   /*   %ENTRY%   */
 /*   return socket descriptor                         */
 int connect_to_server()
 {
-  int fserver = connect_to_channel_by_name("");
+  int fserver = connect_to_channel_by_name(get_gossip_dir(0));
 
   return fserver;
 }
-- 
2.43.0


From 9ec52b54d429c01d2adf54697b61dc1878c6a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 105/159] fix: mgi_read wrote past the end of a string shorter
 than the number of characters asked for

---
 src/primitives/mgilib2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitives/mgilib2.c b/src/primitives/mgilib2.c
index c8b343d..b296f95 100644
--- a/src/primitives/mgilib2.c
+++ b/src/primitives/mgilib2.c
@@ -575,6 +575,9 @@ int32_t f77name (mgi_read) (
         return READ_TYPE_ERROR;
     }
 
+    // Only the characters of the caller's string can be filled
+    if (*dtype == 'C' && nelem > ltype) nelem = ltype;
+
     bzero(buffer, nelem);
 
     int ier = send_command_to_server(chn[chan].gchannel, "READ");
@@ -640,7 +643,7 @@ int32_t f77name (mgi_read) (
 
         buffer = (char *)read_record(chn[chan].gchannel, (char *)buffer, &nelem, nelem, sizeof(char));
 
-        for (int i = nelem+1 ; i < ltype ; i++ ) {
+        for (int i = buffer != NULL ? nelem : 0 ; i < ltype ; i++ ) {
             temp[i] = ' ';
         }
 
-- 
2.43.0


From 7aee5fefa1617a53e66dfac27d45d9d2cd5fb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 106/159] fix: c_mrbadd and c_mrbrep refused, or changed the
 type of, transparent blocks (datyp 0)

---
 src/fstd98/burp98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 721aa79..bd0d8fd 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -301,7 +301,7 @@ static int burp_nbit_datyp(
     int32_t tblmin;
 
     /* if transparent mode, nomodifications */
-    if (((*datyp==2) && (*nbits == 32)) || (datyp == 0)) return 0;
+    if (((*datyp==2) && (*nbits == 32)) || (*datyp == 0)) return 0;
 
     /* if datyp > 5 (real, real*8, complex, complex*8) nbits is set to 32 */
     if (*datyp > 5) {
-- 
2.43.0


From cf3ec08c5be7f5ebc7e120e15ae96b530c315c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 107/159] fix: c_mrbadd wrote block headers with bits of
 uninitialised memory and read past short lists of elements

---
 src/fstd98/burp98.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index bd0d8fd..310ba05 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -485,7 +485,7 @@ int c_mrbadd(
     uint32_t r_btyp, r_nbit, r_bit0, r_datyp;
 
     // initialize block header to 0
-    memset(&entete,sizeof(entete),0x0);
+    memset(&entete, 0, sizeof(entete));
 
     if (((datyp == 3) || (datyp == 5)) && (nbit != 8)) {
         Lib_Log(APP_LIBFST,APP_ERROR,"%s: nbits must be 8 for datyp 3 or 5\n",__func__);
@@ -536,9 +536,9 @@ int c_mrbadd(
         entete.nt = nt;
         entete.nele = nele;
         entete.nval = nval;
-        entete.elem1 = lstele[0];
-        entete.elem2 = lstele[1];
-        entete.elem3 = lstele[2];
+        if (nele > 0) entete.elem1 = lstele[0];
+        if (nele > 1) entete.elem2 = lstele[1];
+        if (nele > 2) entete.elem3 = lstele[2];
         done = 3;
     }
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
-- 
2.43.0


From b9a043453b93a8bf29c8f77fa8f3cefd8bc04b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 108/159] fix: c_mrbadd wrote past the end of the buffer and
 left it damaged when a block did not fit

---
 src/fstd98/burp98.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 310ba05..a0fb9f7 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -541,10 +541,20 @@ int c_mrbadd(
         if (nele > 2) entete.elem3 = lstele[2];
         done = 3;
     }
+    // make sure that the whole block fits before changing anything
+    const int saved_nbits = buf->nbits;
+    const int64_t list_bits = (done < nele) ? (((int64_t)(nele - done) * 16 + 63) / 64) * 64 : 0;
+    const int64_t data_bits = (((int64_t)nombre * inbit + 63) / 64) * 64;
+    const int64_t capacity = ((int64_t)buf->nwords - 9) * 8 * sizeof(uint32_t);
+    if (saved_nbits + list_bits + NBENTB + data_bits > capacity) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: buffer not big enough for the block\n",__func__);
+        return(ERR_BAD_DIM);
+    }
+
     indx = (buf->nbits) / (8 * sizeof(uint32_t));
     pos = (uint32_t *) &(buf->data[indx]);
 
-    *pos = 0;
+    if (done < nele) *pos = 0;
     left = 8 * sizeof(uint32_t);
     bits_added = 0;
 
@@ -553,14 +563,14 @@ int c_mrbadd(
         *pos = (*pos << (32-left)) | (lstele[i] & 0xffff);
         bits_added += 16;
         left -= 16;
-        if (left == 0) {
+        if (left == 0 && i + 1 < nele) {
             pos++;
             *pos = 0;
             left = 8*sizeof(uint32_t);
         }
         i++;
     }
-    if (left != 8 * sizeof(uint32_t)) {
+    if (left == 16) {
         *pos <<= 16;
         bits_added += 16;
     }
@@ -568,10 +578,16 @@ int c_mrbadd(
     buf->nbits += ((bits_added + 63) / 64) * 64;
     err = c_xdfins(buf, (uint32_t *)&entete, buf->buf9, DIMENT,
         8 * sizeof(uint32_t), 0);
-    if (err < 0) return err;
-
+    if (err < 0) {
+        buf->nbits = saved_nbits;
+        return err;
+    }
     err = c_xdfadd(buf, tblval, nombre, inbit, idatyp);
-    if (err < 0) return err;
+    if (err < 0) {
+        c_xdfcut(buf, buf->buf9, DIMENT, 8 * sizeof(uint32_t), 0);
+        buf->nbits = saved_nbits;
+        return err;
+    }
 
     buf->buf78.buf8++;
     buf->buf9 += NBENTB;
-- 
2.43.0


From 06394081ea36d86fb7babeeeaf342942deeb0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 109/159] fix: c_mrbrep changed the header of a block whose new
 values did not fit in the buffer

---
 src/fstd98/burp98.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index a0fb9f7..02fbbdf 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -954,11 +954,7 @@ int c_mrbrep(
     err = burp_nbit_datyp(&new_nbit, &new_datyp, tblval, nombre, xdf_stride);
     if (err < 0) return err;
 
-    if (new_datyp != datyp)
-        block[blkno - 1].datyp = new_datyp;
-
     if (new_nbit != nbit) {
-        block[blkno - 1].nbit = new_nbit - 1;
         nmots = (nbit * nombre + 63) / 64;
         new_nmots = (new_nbit * nombre + 63) / 64;
         diff_nmots = new_nmots - nmots;
@@ -972,6 +968,9 @@ int c_mrbrep(
             }
         }
     }
+    block[blkno - 1].datyp = new_datyp;
+    block[blkno - 1].nbit = new_nbit - 1;
+
     /* replace block */
     err = c_xdfrep((uint32_t *)buf, tblval, bitpos, nombre, new_nbit, new_datyp);
     return err;
-- 
2.43.0


From 57e85413082f1cb16de49ba51bffc32f12d17d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 110/159] fix: mrbprml returned descriptions of blocks beyond
 the last one

---
 src/burp98_f/mrbprml.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/burp98_f/mrbprml.F90 b/src/burp98_f/mrbprml.F90
index 7b06621..d257da5 100644
--- a/src/burp98_f/mrbprml.F90
+++ b/src/burp98_f/mrbprml.F90
@@ -83,7 +83,7 @@ integer function mrbprml(buf, inbkno, tblprm, nprm, inblocs)
     bkno = MAX(inbkno, 0)
 
     !  NOMBRE DE BLOCS A EXTRAIRE
-    nblocs = MIN(inblocs, getbuf8(buf))
+    nblocs = MAX(MIN(inblocs, getbuf8(buf) - bkno), 0)
 
     ! EXTRAIRE TOUTES LES ENTETES DE BLOCS
     DO nobl = 1, nblocs
-- 
2.43.0


From 7c0c54c8222fad259edab730b680221b7e4a1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:16 +0000
Subject: [PATCH 111/159] fix: burp blocks: do not store -2**31 with too few
 bits and report success

---
 src/fstd98/burp98.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/burp98.c b/src/fstd98/burp98.c
index 02fbbdf..4cad316 100644
--- a/src/fstd98/burp98.c
+++ b/src/fstd98/burp98.c
@@ -327,7 +327,9 @@ static int burp_nbit_datyp(
 
     /* check if signed integer is required and set max to ABS value */
     if (tblmin < -1) {
-        tblmax = (tblmax > (-tblmin)) ? tblmax : (-tblmin);
+        // The smallest integer has no opposite
+        const int32_t magnitude = (tblmin < -INT32_MAX) ? INT32_MAX : -tblmin;
+        tblmax = (tblmax > magnitude) ? tblmax : magnitude;
         *datyp = 4;
     }
 
-- 
2.43.0


From 64c7e3e9b8ae353b8235d1322611d843f97cff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 112/159] fix: whiteboard: refuse an array put on a scalar
 entry and a scalar get of an array entry

---
 src/whiteboard/WhiteBoard_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index bcb12a8..8f58a02 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1075,7 +1075,7 @@ int c_wb_get(
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGTYPE);
     }
 
-    if (array && line->meta.flags.array != 1) {
+    if (array != line->meta.flags.array) {
         return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
     }
 
@@ -1227,7 +1227,7 @@ int c_wb_put(
         }
         // Mark as bad value in case it fails
         line->meta.flags.badval = 1;
-        if (line->meta.flags.array == 1 && array != 1) {
+        if (line->meta.flags.array != array) {
             // Array to scalar or scalar to array is a NO NO
             return wb_error(WB_MSG_ERROR, WB_ERR_WRONGDIMENSION);
         }
-- 
2.43.0


From 21e7b7ab443d722cab96aa8d87aef93c91557b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 113/159] fix: whiteboard: WB_REWRITE_AT_RESTART was not kept,
 so entries stayed read-only after a restart

---
 src/whiteboard/WhiteBoard.h   | 4 +++-
 src/whiteboard/WhiteBoard_c.c | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard.h b/src/whiteboard/WhiteBoard.h
index cecca48..35e8d16 100644
--- a/src/whiteboard/WhiteBoard.h
+++ b/src/whiteboard/WhiteBoard.h
@@ -29,7 +29,9 @@ typedef struct {
     //! variable has been set
     unsigned int initialized:1;
     //! number of datalines occupied by variable. if 0 it means entire page
-    unsigned int lines:10;
+    unsigned int lines:9;
+    //! 1 if variable is no longer read-only after a restart
+    unsigned int resetatrestart:1;
 } wb_flags;
 
 //! Large token, full name, integers
diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 8f58a02..8e6bab2 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -858,6 +858,7 @@ static int options_to_flags(
     line->meta.flags.resetuntil = (options & WB_REWRITE_UNTIL) ? 1 : 0;
     line->meta.flags.resetmany = (options & WB_REWRITE_MANY) ? 1 : 0;
     line->meta.flags.noresetafterrestart = (options & WB_READ_ONLY_ON_RESTART) ? 1 : 0;
+    line->meta.flags.resetatrestart = (options & WB_REWRITE_AT_RESTART) ? 1 : 0;
     line->meta.flags.initialized = (options & WB_INITIALIZED) ? 1 : 0;
     if (line->meta.flags.readonly + line->meta.flags.resetmany + line->meta.flags.resetuntil > 1) {
         return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
@@ -881,6 +882,7 @@ static int flags_to_options(
     if (line->meta.flags.resetuntil) options += WB_REWRITE_UNTIL;
     if (line->meta.flags.resetmany) options += WB_REWRITE_MANY;
     if (line->meta.flags.noresetafterrestart) options += WB_READ_ONLY_ON_RESTART;
+    if (line->meta.flags.resetatrestart) options += WB_REWRITE_AT_RESTART;
     if (line->meta.flags.initialized) {
         options += WB_INITIALIZED;
     } else {
@@ -1302,6 +1304,7 @@ int c_wb_put(
         // Not created by a restart
         line->meta.flags.fromrestart = 0;
         line->meta.flags.noresetafterrestart = (options & WB_READ_ONLY_ON_RESTART) ? 1 : 0;
+        line->meta.flags.resetatrestart = (options & WB_REWRITE_AT_RESTART) ? 1 : 0;
         line->meta.flags.array = array;
         // Arrays are not explicitely initialized for the time being
         if (array) {
-- 
2.43.0


From 553ff1c806af7016abca7cfdae73bcc8b0f37f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 114/159] fix: whiteboard: at a restart, an entry without value
 kept the following ones from becoming read-only

---
 src/whiteboard/WhiteBoard_c.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 8e6bab2..3a9948b 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1575,6 +1575,18 @@ static int wb_cb_read_only(
 }
 
 
+//! c_wb_check callback to set the read-only attribute of the provided line at restart, if it has a value
+//! \return 0 on scuccess.  Error code otherwise.
+static int wb_cb_read_only_on_restart(
+    //! [in] Line to set read-only
+    wb_line *line,
+    //! [in] Unused
+    void *blinddata
+) {
+    return line->meta.flags.initialized ? wb_cb_read_only(line, blinddata) : 0;
+}
+
+
 //! c_wb_check callback to remove the read-only attribute of the provided line
 //! \return Always 0
 static int wb_cb_read_write(
@@ -1773,7 +1785,7 @@ int c_wb_reload()
     // If variable is WB_REWRITE_AT_RESTART, erase the read-only flag
     status = c_wb_check(BaseWhiteboardPtr, "", WB_REWRITE_AT_RESTART, 0, 0, wb_cb_read_write, NULL);
     // If variable is WB_READ_ONLY_ON_RESTART, make sure it is now marked as reasd-only
-    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only, NULL);
+    status = c_wb_check(BaseWhiteboardPtr, "", WB_READ_ONLY_ON_RESTART, 0, 0, wb_cb_read_only_on_restart, NULL);
     // If variable is local (not the same on ALL MPI whiteboards, mark it as not initialized
     status = c_wb_check(BaseWhiteboardPtr, "", WB_IS_LOCAL, 0, 0, wb_cb_undefined, NULL);
     // Mark all variables as having been created by a restart
-- 
2.43.0


From 3c968952cf523784c6d12b56c595635619115c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 115/159] fix: whiteboard: checkpoints and refused reloads left
 the file open

---
 src/whiteboard/WhiteBoard_c.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 3a9948b..3e96a22 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1447,8 +1447,8 @@ int c_wb_checkpoint()
 
     // 0 length page is the end marker
     status = write(fd, &zero, 4);
+    close(fd);
     if (status < 0) {
-        close(fd);
         return wb_error(WB_MSG_ERROR, WB_ERR_CKPT);
     }
 
@@ -1755,6 +1755,7 @@ int c_wb_reload()
     }
     
     if (BaseWhiteboardPtr->firstpage != NULL) {
+        close(fd);
         return wb_error(WB_MSG_ERROR,WB_ERR_INITRESTART);
     }
    
-- 
2.43.0


From c4a90f55ae362e3112ebc88f6c6ed009abeb0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 116/159] fix: whiteboard: the name of the checkpoint file was
 not terminated, or not kept when it had no trailing blank

---
 src/whiteboard/WhiteBoard_c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 3e96a22..0783235 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -723,11 +723,11 @@ int c_wb_checkpoint_name(
     char *filename
 ) {
     set_extra_error_message("Setting chekpoint file name", -1);
-    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename));
+    WhiteBoardCheckpointFile = (char *)malloc(strlen(filename) + 1);
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL, WB_ERR_ALLOC);
     }
-    strncpy(WhiteBoardCheckpointFile, filename, strlen(filename));
+    strcpy(WhiteBoardCheckpointFile, filename);
     return wb_init();
 }
 
@@ -746,7 +746,7 @@ int32_t f77_name(f_wb_checkpoint_name)(
     if (WhiteBoardCheckpointFile == NULL) {
         return wb_error(WB_MSG_FATAL, WB_ERR_ALLOC);
     }
-    c_fortran_string_copy(filename, WhiteBoardCheckpointFile, Lfilename, Lfilename, '\0');
+    c_fortran_string_copy(filename, WhiteBoardCheckpointFile, Lfilename, Lfilename + 1, '\0');
     return wb_init();
 }
 
-- 
2.43.0


From 54c08bb156d8e662ce06cda1430c09766bc5f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 117/159] fix: whiteboard: crash at the first put after loading
 the checkpoint of an empty whiteboard

---
 src/whiteboard/WhiteBoard_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 0783235..187b7f9 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1783,6 +1783,14 @@ int c_wb_reload()
     }
     close(fd);
 
+    if (BaseWhiteboardPtr->firstpage == NULL) {
+        // The checkpointed whiteboard was empty
+        status = new_page(BaseWhiteboardPtr, WB_MAXLINESPERPAGE);
+        if (status < 0) {
+            return status;
+        }
+    }
+
     // If variable is WB_REWRITE_AT_RESTART, erase the read-only flag
     status = c_wb_check(BaseWhiteboardPtr, "", WB_REWRITE_AT_RESTART, 0, 0, wb_cb_read_write, NULL);
     // If variable is WB_READ_ONLY_ON_RESTART, make sure it is now marked as reasd-only
-- 
2.43.0


From 6ad03fcf26741576257e62cdd7716f98624c16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 118/159] fix: whiteboard: entries of the checkpoint file were
 not found by the first operation, which could define them twice

---
 src/whiteboard/WhiteBoard_c.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 187b7f9..b1c0a4c 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -927,6 +927,13 @@ static int c_wb_lookup(
         return wb_error(WB_MSG_ERROR, WB_ERR_NAMETOOLONG);
     }
 
+    if (wb == BaseWhiteboardPtr && wb->firstpage == NULL) {
+        // First time through, the key may be in the checkpoint file
+        int status = wb_init();
+        if (status < 0) {
+            return status;
+        }
+    }
     lookuppage = wb->firstpage;
     // Put key name into local line
     fill_line(&line, name, nameLength);
@@ -1488,6 +1495,14 @@ int c_wb_check(
         wb = BaseWhiteboardPtr;
     }
 
+    if (wb == BaseWhiteboardPtr && wb->firstpage == NULL) {
+        // First time through, the keys may be in the checkpoint file
+        int status = wb_init();
+        if (status < 0) {
+            return status;
+        }
+    }
+
     int nameLen = trim(name, nameLength);
     wb_page * lookuppage = wb->firstpage;
 
-- 
2.43.0


From cbe6f3a1b8b945a40aecbcd39fdb77bbb61e7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 119/159] fix: whiteboard: names that do not fit in the labels
 of the caller were reported but not returned

---
 src/whiteboard/WhiteBoard_c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index b1c0a4c..43dea3c 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1709,7 +1709,10 @@ static int wb_copy_key_name(
         return WB_ERROR;
     }
     // c_fortran_string_copy does not allocate memory for the destination (keys->name); the user must make sure it's allocated
-    c_fortran_string_copy(line->meta.name.carr, keys->name, WB_MAXNAMELENGTH, keys->nameLength, ' ');
+    if (c_fortran_string_copy(line->meta.name.carr, keys->name, WB_MAXNAMELENGTH, keys->nameLength, ' ') < 0) {
+        // User label too short
+        return WB_ERROR;
+    }
     (keys->userMaxLabels)--;
     keys->name += keys->nameLength;
 
-- 
2.43.0


From 7a621c39e209b5fc76fc19422ac38276c0ff7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 120/159] fix: whiteboard: a refused definition of a large
 array could leave a page in which later entries were lost

---
 src/whiteboard/WhiteBoard_c.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 43dea3c..492f2a0 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -1262,6 +1262,10 @@ int c_wb_put(
             return lookup_result;
         }
 
+        if (((options & WB_REWRITE_NONE) ? 1 : 0) + ((options & WB_REWRITE_MANY) ? 1 : 0) + ((options & WB_REWRITE_UNTIL) ? 1 : 0) > 1) {
+            return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
+        }
+
         // Number of storage lines is 1 for scalars using less than 9 bytes
         int lines = 1;
         // Arrays and strings need supplementary storage space
@@ -1300,9 +1304,6 @@ int c_wb_put(
         line->meta.flags.readonly = (options & WB_REWRITE_NONE) ? 1 : 0;
         line->meta.flags.resetmany = (options & WB_REWRITE_MANY) ? 1 : 0;
         line->meta.flags.resetuntil = (options & WB_REWRITE_UNTIL) ? 1 : 0;
-        if (line->meta.flags.readonly + line->meta.flags.resetmany + line->meta.flags.resetuntil > 1) {
-            return wb_error(WB_MSG_ERROR, WB_ERR_OPTION);
-        }
         line->meta.flags.initialized = 0;
         // Variable has the local attribute, this will be used when checkpointing
         line->meta.flags.islocal = (options & WB_IS_LOCAL) ? 1 : 0;
-- 
2.43.0


From 4e69495789515010aeeb435f9c801b4adaf34484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 121/159] fix: whiteboard: long names were copied past the end
 of the buffer for messages

---
 src/whiteboard/WhiteBoard_c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 492f2a0..d05bb1c 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -391,8 +391,8 @@ static void set_extra_error_message(
     int length
 ) {
     // Cap the maximum length
-    if (length > WB_MAX_ETRA_ERROR_LEN  || length < 0) {
-        length = WB_MAX_ETRA_ERROR_LEN;
+    if (length > WB_MAX_ETRA_ERROR_LEN - 1 || length < 0) {
+        length = WB_MAX_ETRA_ERROR_LEN - 1;
     }
 
     int pos = 0;
-- 
2.43.0


From 38ff4147db72682a3fd4a17fe7b4a13a9e0b627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 122/159] fix: whiteboard directives: read-only entries were
 changed, bad values were kept as good, strings without quotes were cut

---
 src/whiteboard/WhiteBoard_c.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index d05bb1c..2222a90 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2315,6 +2315,12 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
         goto error_syntax;
     }
 
+    if (line->meta.flags.readonly && line->meta.flags.initialized) {
+        Lib_Log(APP_LIBWB,APP_ERROR,"%s: '%s' is read-only\n",__func__,name);
+        goto error_syntax;
+    }
+    // Mark as bad value in case it fails
+    line->meta.flags.badval = 1;
     if (elements == 0) {
         // Scalar, 1 item
         elements = 1;
@@ -2374,6 +2380,7 @@ static int wb_key(WhiteBoard *wb, FILE *infile, char *token, char *package, int
                 break;
             case WB_FORTRAN_CHAR:
                 // Copy string in buffer into target, mit firs and last character, the quotes
+                if (buffer[0] != '\'' && buffer[0] != '"') goto error_type;
                 nread = c_fortran_string_copy(buffer + 1, (char *)dataptr, strlen(buffer) - 2, elementsize, ' ');
                 if (nread < 0) goto error_string;
                 break;
-- 
2.43.0


From 46a9545319c2221f83ea3f724eea17542d927e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 123/159] fix: whiteboard directives: invalid options were used
 and not reported, keys starting with a keyword were not assigned

---
 src/whiteboard/WhiteBoard_c.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 2222a90..4d7a53c 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2237,6 +2237,8 @@ static int wb_define(
             ntoken = wb_get_token(token, infile, 2, 0);
             if (token[0] != '=' || ntoken != 1) goto error_syntax;
             options = wb_options(infile, '[', ']', dict_options);
+            // The rest of the line was already skipped
+            if (options < 0) return options;
             opt_cmd++;
         } else if (strcmp("DESC", (char *)token) == 0 && desc_cmd == 0) {
             // DESC= subcommand
@@ -2524,14 +2526,24 @@ int c_wb_read(
     int ntoken = wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 0);
     // Loop until end of section (beginning of next section or EOF)
     while (strncmp((char *)token, "@", 1) && ntoken != WB_ERROR ) {
-        if (strncmp((char *)token, "OPTIONS", 7) == 0 ) {
+        if (strcmp((char *)token, "OPTIONS") == 0 ) {
             // Default options directive
-            default_dict_option = wb_options(infile, '(', ')', dict_options);
-        } else if (strncmp((char *)token, "MESSAGES", 8) == 0 ) {
+            int new_options = wb_options(infile, '(', ')', dict_options);
+            if (new_options < 0) {
+                errors++;
+            } else {
+                default_dict_option = new_options;
+            }
+        } else if (strcmp((char *)token, "MESSAGES") == 0 ) {
             // Verbosity control directive
-            message_level = wb_options(infile,'(',')',verb_options);
-            Lib_LogLevelNo(APP_LIBWB,message_level);
-        } else if (strncmp((char *)token, "DEFINE", 6) == 0 && options != WB_FORBID_DEFINE ) {
+            int new_level = wb_options(infile,'(',')',verb_options);
+            if (new_level < 0) {
+                errors++;
+            } else {
+                message_level = new_level;
+                Lib_LogLevelNo(APP_LIBWB,message_level);
+            }
+        } else if (strcmp((char *)token, "DEFINE") == 0 && options != WB_FORBID_DEFINE ) {
             // Define directive (if allowed)
             if (wb_define(wb, infile, _package) < 0) errors++;
         } else if (isalpha(token[0])) {
-- 
2.43.0


From 6d13ecc010593580ca715133f0fe7d6348950ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 124/159] fix: whiteboard directives: a section was taken for
 another one whose name starts the same way

---
 src/whiteboard/WhiteBoard_c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index 4d7a53c..bb84ab4 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2514,6 +2514,8 @@ int c_wb_read(
         }
         wb_get_token(token, infile, WB_MISC_BUFSZ - 1, 1);
         notFound = (strncmp((char *)token, _section, strlen(_section)) != 0);
+        // A longer name is another section, unless the one that was given has been cut
+        if (_section[0] != 0 && strlen(_section) < WB_MAXNAMELENGTH - 1 && strlen((char *)token) > strlen(_section)) notFound = 1;
     }
     Lib_Log(APP_LIBWB,APP_INFO,"%s: directive section %s found\n",__func__, _section);
 
-- 
2.43.0


From ceb159693718ad03a42bbb85826093de2864e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 125/159] fix: whiteboard directives: logical entries could not
 be defined as L1, as documented

---
 src/whiteboard/WhiteBoard_c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/whiteboard/WhiteBoard_c.c b/src/whiteboard/WhiteBoard_c.c
index bb84ab4..78a2168 100644
--- a/src/whiteboard/WhiteBoard_c.c
+++ b/src/whiteboard/WhiteBoard_c.c
@@ -2205,6 +2205,10 @@ static int wb_define(
     }
 
     if (nread != ntoken) goto error_syntax;
+    if (key_type == WB_FORTRAN_BOOL && len_type == 1) {
+        // Special case, force 4 byte container for FORTRAN logical type
+        len_type = 4;
+    }
     // Check type and length combination
     if ((key_type = get_typecode(key_type, len_type, len_type)) < 0) goto error_syntax;
 
-- 
2.43.0


From 630c0b6c57d02d7d658e0b044a9189b7b600e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:51 +0000
Subject: [PATCH 126/159] fix: newdate (modes 1, -1, 6) refuses basic dates
 past the end of 2235, and incdatr keeps the last minute of that year

---
 src/base/moduledate.f90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 6c45b1f..c0841be 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -347,7 +347,7 @@
 !               EXT_TRUE_DATE=(EXT_FALSE_DATE/10)*8+MOD(EXT_FALSE_DATE,10)
 !             AS THIS EXTENDED DATE IS STORED IN A SIGNED INTEGER,
 !             THE STORED VALUE WILL BE A LARGE NEGATIVE ONE.
-!         - td2235 = truedate of dec 31, 2235, 23h59
+!         - td2235 = truedate of dec 31, 2235, 23h59m55s
 !         - td1900 = -504904320 = truedate of jan 1, 1900
 !--------------------------------------------------------------------
 !
@@ -364,7 +364,7 @@
       integer tdate1,tdate2,runnum,ndays,pdate2
       integer idate(2),pdate1(2)
       integer td1900, td2235
-      data td1900 /-504904320/, td2235 /1615714548/
+      data td1900 /-504904320/, td2235 /1615714559/
 
       rounding=.false.
       goto 4
@@ -1250,7 +1250,7 @@
 !WARNING  - IF NEWDATE RETURNS 1, OUTPUTS CAN TAKE ANY VALUE
 !
 !*
-      integer tdate,runnb,stamp,tmpr,dtpr,td1900,td2000
+      integer tdate,runnb,stamp,tmpr,dtpr,td1900,td2000,td2235
       integer year,month,day,zulu,second,minute, max_offset
       integer tdstart,jd2236,jd1980,jd1900,jd0,jd10k,exception
       integer , dimension(12) :: mdays
@@ -1263,7 +1263,7 @@
       data tdstart /123200000/,jd1980 /2444240/,jd1900 /2415021/
       data jd0 /1721060/,jd10k /5373485/, max_offset /109572750/
       data jd2236 /2537742/, exception /16663825/
-      data td2000 /126230400/, td1900 /-504904320/
+      data td2000 /126230400/, td1900 /-504904320/, td2235 /1615714559/
       data mdays /31,29,31,30,31,30,31,31,30,31,30,31/
 !
       integer :: jd
@@ -1416,7 +1416,7 @@
 !
  3    tdate=dat1
       runnb=dat3
- 33   if((runnb.gt.9) .or. (.not.validtd(tdate))) goto 4
+ 33   if((runnb.gt.9) .or. (.not.validtd(tdate)) .or. (tdate.gt.td2235)) goto 4
 !     use new stamp if > jan 1, 2000 or fractional hour
       if (tdate.ge.td2000 .or. mod(tdate,720).ne.0) then
 !     encode it in a new date-time stamp, ignore run nb
@@ -1439,6 +1439,7 @@
       if (stamp.ge.tdstart) then
 !     stamp is a new date-time stamp
          tdate=(stamp-tdstart)/10*8+mod(stamp-tdstart,10)
+         if (tdate.gt.td2235) goto 4
          runnb=0
       else if (stamp .lt. -1) then
         call lib_log(APP_LIBRMN,APP_ERROR,'naetwed: newdate error mode 1, negative stamp')
@@ -1567,6 +1568,7 @@
         if (stamp.ge.tdstart) then
 !     stamp is a new date-time stamp
           tdate=(stamp-tdstart)/10*8+mod(stamp-tdstart,10)
+          if (tdate.gt.td2235) goto 4
           call datec(jd1900+(tdate-td1900)/17280,year,month,day)
           zulu=mod(tdate-td1900,17280)/720
           runnb=0
-- 
2.43.0


From 987f888167beaad30c5203773a16717b9cb7184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:51 +0000
Subject: [PATCH 127/159] fix: newdate mode -1 refuses a negative run number

---
 src/base/moduledate.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index c0841be..c654bb3 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1416,7 +1416,7 @@
 !
  3    tdate=dat1
       runnb=dat3
- 33   if((runnb.gt.9) .or. (.not.validtd(tdate)) .or. (tdate.gt.td2235)) goto 4
+ 33   if((runnb.lt.0) .or. (runnb.gt.9) .or. (.not.validtd(tdate)) .or. (tdate.gt.td2235)) goto 4
 !     use new stamp if > jan 1, 2000 or fractional hour
       if (tdate.ge.td2000 .or. mod(tdate,720).ne.0) then
 !     encode it in a new date-time stamp, ignore run nb
-- 
2.43.0


From 2b27fcdba534a071f72db05b953fe56065917045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:51 +0000
Subject: [PATCH 128/159] fix: newdate modes -6 and 6 refuse dates outside of
 years 0 to 9999 (incdatr gave back stamps of no date)

---
 src/base/moduledate.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index c654bb3..dc34225 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1529,6 +1529,7 @@
 !
 104   continue
       tdate=dat1
+      if (tdate < 0 .or. tdate >= (jd10k-jd0)*24) goto 4
       if (tdate == exception .or.      &      ! 1901010101
          (tdate/24+jd0) <  jd1900 .or. &
          (tdate/24+jd0) >= jd2236) then ! extended stamp
@@ -1555,7 +1556,7 @@
         date_unsigned = stamp8
 !!!     if (w16(1).eq.0) date_unsigned = ishft(stamp8,-32)
         if (date_unsigned < troisg .or. &
-           date_unsigned > troisg + max_offset) then
+           date_unsigned >= troisg + max_offset) then
            write(app_msg,*)'naetwed: newdate error, nvalid stamp for mode -6, stamp=',stamp
            call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
            goto 4
-- 
2.43.0


From f61c13e572288f1b727a83d8d8be4e0a06f3f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:51 +0000
Subject: [PATCH 129/159] fix: newdate modes 1 and 6 (incdat, difdat) refuse
 old style stamps of impossible dates

---
 src/base/moduledate.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index dc34225..5770650 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1451,6 +1451,8 @@
          year=mod(stamp/1000,100)+1900
          day=mod(stamp/100000,100)
          month=mod(stamp/10000000,100)
+         if (stamp.lt.0 .or. .not.validtm(year,month,day,zulu)) goto 4
+         if (month.eq.2 .and. day.eq.29 .and. .not.bissextile(year)) goto 4
          tdate=(jd(year,month,day)-jd1980)*17280+zulu*720
       endif
       if (.not.validtd(tdate)) goto 4
@@ -1583,6 +1585,8 @@
            year=mod(stamp/1000,100)+1900
            day=mod(stamp/100000,100)
            month=mod(stamp/10000000,100)
+           if (stamp.lt.0 .or. .not.validtm(year,month,day,zulu)) goto 4
+           if (month.eq.2 .and. day.eq.29 .and. .not.bissextile(year)) goto 4
            tdate=(jd(year,month,day)-jd0)*24+zulu
 !           print *,'Debug old date stamp tdate=',tdate
         endif
-- 
2.43.0


From 92248dcd1cedf6e1b36999f63aa30f3a84667788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:51 +0000
Subject: [PATCH 130/159] fix: newdate refuses printable dates whose year has
 more than four digits

---
 src/base/moduledate.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 5770650..84bb7f7 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1349,7 +1349,7 @@
  7    dtpr=dat2(1)
       tmpr=dat3
       dat1=0
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
 !     dtpr,tmpr=19010101,01000000 will be encoded extended stamp
 !     as the corresponding old date-time stamp is used as an
 !     error indicator by INCDATR/IDATMG2/DATMGP2
@@ -1399,7 +1399,7 @@
 !     as the corresponding old date-time stamp is used as an
 !     error indicator by INCDATR/IDATMG2/DATMGP2
       if (dtpr == 19010101 .and. tmpr == 01000000) goto 107
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       month=mod(dtpr/100,100)
       day=mod(dtpr,100)
       zulu=mod(tmpr/1000000,100)
@@ -1478,7 +1478,7 @@
       dtpr=dat2(1)
       tmpr=dat3
       dat1=0
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       month=mod(dtpr/100,100)
       day=mod(dtpr,100)
       zulu=mod(tmpr/1000000,100)
@@ -1615,7 +1615,7 @@
 !
 107   dtpr=dat2(1)
       tmpr=dat3
-      year=mod(dtpr/10000,10000)
+      year=dtpr/10000
       if (year < 0 .or. year >= 10000) then
          write(app_msg,*)'naetwed: newdate error, date outside of supported range, date =',dtpr
          call lib_log(APP_LIBRMN,APP_ERROR,app_msg)
-- 
2.43.0


From 7d4c766a9afc9f5ac9d76d7ce298920e81b66ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 131/159] fix: incdat in the 365 and 360 day calendars gave
 back wrong stamps for sums outside of the supported years

---
 src/base/moduledate.f90 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 84bb7f7..c417d73 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -441,6 +441,8 @@
         if (adding) then
           tdate1=tdate2+nint(nhours)
           if (no_leap_years .or. ccclx_days) then
+            result=naetwed(tdate1,pdate1,pdate2,-7)
+            if(result.ne.0) goto 2
             ndays = Calendar_Adjust_int(tdate1,tdate2,'E',adding)
             tdate1 = tdate1 + (ndays*24)
           endif
@@ -500,6 +502,8 @@
              endif
              tdate1=tdate2+nint(nhours)
              if (no_leap_years .or. ccclx_days) then
+               result=naetwed(tdate1,pdate1,pdate2,-7)
+               if(result.ne.0) goto 2
                ndays = Calendar_Adjust_int(tdate1,tdate2,'E',adding)
                tdate1 = tdate1 + (ndays*24)
              endif
@@ -1142,6 +1146,10 @@
          p1b    = ((ho1*100+mi1)*100+se1)*100
 
          ier = naetwed( tdateL, p1a,p1b, print2true )
+         if (ier /= 0) then ! not a date of the supported range
+            CcclxDays_Adjust_int = ( sign(huge(tdate1),nint(nhours)) - tdate1 ) / addit
+            return
+         endif
 
          ! ensure that tdate1 + CcclxDays_Adjust = tdateL
          CcclxDays_Adjust_int = ( tdateL - tdate1 ) / addit
-- 
2.43.0


From b0f6c6079a3dbe624350fa258e28a7e03a73cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 132/159] fix: difdat in the 365 day calendar counted the last
 leap day twice when rounding up to the end of 2235

---
 src/base/moduledate.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index c417d73..fe64a88 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -934,6 +934,7 @@
       do annee = y2,y1,inc
         if (bissextile(annee)) then
           dat(1) = annee*10000+0228 ; ier = naetwed(tdate28f,dat,limite,print2true)
+          if (ier /= 0) cycle ! no such date in this mode
           dat(1) = annee*10000+0229
           if (inc > 0) then
             ier = naetwed(tdate29f,dat,0,print2true)
@@ -961,6 +962,7 @@
       do annee = y1+inc,y1L,inc
         if (bissextile(annee)) then
           dat(1) = annee*10000+0228 ; ier = naetwed(tdate28f,dat,limite,print2true)
+          if (ier /= 0) cycle ! no such date in this mode
           dat(1) = annee*10000+0229
           if (inc > 0) then
             ier = naetwed(tdate29f,dat,0,print2true)
-- 
2.43.0


From 30713f8ebe846cd0db6a241b11e79c0137e8d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 133/159] fix: incdat and difdat in the 365 day calendar
 skipped a day going back from the end of a February 28th of a leap year

---
 src/base/moduledate.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index fe64a88..f351c37 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -949,7 +949,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
@@ -974,7 +974,7 @@
           else
             ier = naetwed(tdate29f,dat,limite,print2true)
             if (tdate29f <= tdate28f) call lib_log(APP_LIBRMN,APP_ERROR,'LeapYear_Adjust_int: tdate29f < tdate28f')
-            if ((tdate2 >= tdate28f) .and. (tdate1L <= tdate29f)) then
+            if ((tdate2 > tdate28f) .and. (tdate1L <= tdate29f)) then
               ndays = ndays+inc
               tdate1L = tdate1L+addit*inc
             endif
-- 
2.43.0


From 84c73a9b3f57d17ca53043ace9710dbe3ea4794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 134/159] fix: incdati and difdati in the 365 and 360 day
 calendars rounded the end of a month to a date which these calendars do not
 have

---
 src/base/moduledate.f90 | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index f351c37..1b4f4ea 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -470,7 +470,11 @@
            goextend=.false.
            rounding=rounding.or.(tdate2.lt.0)
            if (rounding) then
-              tdate2=(tdate2+sign(360,tdate2))/720*720
+              if (no_leap_years.or.ccclx_days) then
+                 call Round_in_Calendar_int(tdate2,ccclx_days)
+              else
+                 tdate2=(tdate2+sign(360,tdate2))/720*720
+              endif
               addit = 720*nint(nhours,8)
            else
               addit = nint(720*nhours,8)
@@ -518,8 +522,13 @@
            endif
         else
            if (rounding) then
-              tdate1=(tdate1+sign(360,tdate1))/720*720
-              tdate2=(tdate2+sign(360,tdate2))/720*720
+              if (no_leap_years.or.ccclx_days) then
+                 call Round_in_Calendar_int(tdate1,ccclx_days)
+                 call Round_in_Calendar_int(tdate2,ccclx_days)
+              else
+                 tdate1=(tdate1+sign(360,tdate1))/720*720
+                 tdate2=(tdate2+sign(360,tdate2))/720*720
+              endif
               nhours=nint((tdate1-tdate2)/720.0)
            else
               nhours=(tdate1-tdate2)
@@ -986,6 +995,30 @@
       return
       end
 
+      subroutine Round_in_Calendar_int(tdate,ccclx_days)
+
+!     Round a basic TrueDate to the nearest hour; the end of a day is
+!     rounded to the next day that exists in the alternative calendar
+
+      implicit none
+      integer :: tdate,rdate,ier,month,day,p1(2),p2
+      logical :: ccclx_days
+      integer, external :: naetwed
+
+      rdate=(tdate+sign(360,tdate))/720*720
+      if (rdate > tdate) then
+         ier = naetwed(rdate,p1,p2,-2)
+         month = mod( p1(1) / 100 , 100 )
+         day = mod( p1(1) , 100 )
+         if (ier == 0 .and. p2 == 0 .and. ((month == 2 .and. day == 29) .or. &
+             (ccclx_days .and. month > 4 .and. day == 31))) rdate = rdate+17280
+      endif
+      tdate = rdate
+
+      return
+
+      end
+
       integer function CcclxDays_Adjust_int(tdate1,tdate2, &
                                 true_date_mode,adding)
 
-- 
2.43.0


From 3065cb1f05f5a3ac251afdd85925c1fafa4af5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 135/159] fix: incdat in the 360 day calendar gave back a date
 of 1982 for 1901-01-01 01Z

---
 src/base/moduledate.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/moduledate.f90 b/src/base/moduledate.f90
index 1b4f4ea..a73cdaa 100644
--- a/src/base/moduledate.f90
+++ b/src/base/moduledate.f90
@@ -1178,9 +1178,9 @@
          ! calculate the real TrueDate
 
          p1a(1) =  (ye1*100+mo1)*100+da1
-         p1b    = ((ho1*100+mi1)*100+se1)*100
 
-         ier = naetwed( tdateL, p1a,p1b, print2true )
+         ier = naetwed( tdateL, p1a,0, print2true ) ! (1901010101 has no basic true date)
+         tdateL = tdateL + (ho1*3600+mi1*60+se1)*nint( td2h )/3600
          if (ier /= 0) then ! not a date of the supported range
             CcclxDays_Adjust_int = ( sign(huge(tdate1),nint(nhours)) - tdate1 ) / addit
             return
-- 
2.43.0


From bb94dbdd1c643195cec15d7095b0210ce86f58c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 136/159] fix: kind_to_string: write the sub-kinds of kind 15
 in the string, not on unit 1

---
 src/fstd98/convip_plus.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/convip_plus.f90 b/src/fstd98/convip_plus.f90
index b1d25db..2f0fca8 100644
--- a/src/fstd98/convip_plus.f90
+++ b/src/fstd98/convip_plus.f90
@@ -662,7 +662,7 @@ function kind_to_string(code) RESULT(string)  ! translate ip kind into a 2 chara
 
     if(code/16>9)  return  ! not a potentially valid subkind of kind 15
 
-    write(1,string)'I',code/16   ! 'In' code where n=code/16 (n=0,1..,9)
+    write(string,'(A1,I1)')'I',code/16   ! 'In' code where n=code/16 (n=0,1..,9)
 
     return
 end function kind_to_string
-- 
2.43.0


From 64e027516c014403aa1b1add8887cd424b390708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 137/159] fix: convip_plus: a negative value too small for the
 encoding is 0 (was coded as +1.0e-5)

---
 src/fstd98/convip_plus.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/convip_plus.f90 b/src/fstd98/convip_plus.f90
index 2f0fca8..77a48de 100644
--- a/src/fstd98/convip_plus.f90
+++ b/src/fstd98/convip_plus.f90
@@ -191,7 +191,8 @@ SUBROUTINE CONVIP_plus( ip, p, kind, mode, string, flagv )
           if ( temp .gt. limit1 ) then          ! number is too big, cannot code
               ip = -1
           else
-              ip = offset + nint(temp)
+              ip = nint(temp)
+              if ( ip .gt. 0 ) ip = offset + ip ! a negative number that rounds to 0 is 0, not 1000000
           endif
           ip = ior (ip,ishft(iexp,20))          ! add pseudo exponent
           ip = ior (ip,ishft(iand(15,kind),24)) ! add primary kind flag
-- 
2.43.0


From 6ebcdddd55b5f718612b3c00c3c972467e99348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 138/159] fix: convip_plus: old style pressures just below 10,
 1, 0.1 and 0.01 mb no longer round to a code that means something else

---
 src/fstd98/convip_plus.f90 | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/convip_plus.f90 b/src/fstd98/convip_plus.f90
index 77a48de..3664fd1 100644
--- a/src/fstd98/convip_plus.f90
+++ b/src/fstd98/convip_plus.f90
@@ -216,14 +216,15 @@ SUBROUTINE CONVIP_plus( ip, p, kind, mode, string, flagv )
                 ip = -999999
                 return
               endif
-              if (0.999999e+1 .le. p .and. p .lt. 1100. ) then
+              ! each interval stops where its values would round to the end of its codes (2000, 1800, 1600, 1400)
+              if (9.975 .le. p .and. p .lt. 1100. ) then
                 ip = nint ( p )
-              elseif ( p .lt. 0.999999e+1 ) then
-                if( p .ge. 0.999999e0 ) then
+              elseif ( p .lt. 9.975 ) then
+                if( p .ge. 0.9975 ) then
                     ip = 1800 + nint(20.*p)
-                elseif ( p .ge. 0.999999e-1 ) then
+                elseif ( p .ge. 0.09975 ) then
                     ip = 1600 + nint(200.*p)
-                elseif ( p .ge. 0.999999e-2 ) then
+                elseif ( p .ge. 0.009975 ) then
                     ip = 1400 + nint(2000.*p)
                 elseif ( p .ge. 0.999999e-3 ) then
                     ip = 1200 + nint(20000.*p)
-- 
2.43.0


From 54306a60338d86ceb5969bd86b76bfdb7e2a8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 139/159] fix: EncodeIp, ConvertPKtoIP: report the values that
 could not be encoded

---
 src/fstd98/convert_ip123.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstd98/convert_ip123.f90 b/src/fstd98/convert_ip123.f90
index 05a8208..d923a79 100644
--- a/src/fstd98/convert_ip123.f90
+++ b/src/fstd98/convert_ip123.f90
@@ -318,6 +318,7 @@ end subroutine swap
   call convip_plus(IP1,P(1),kind(1),+2,dummy,.false.)  ! NEW style encoding not negotiable
   call convip_plus(IP2,P(2),kind(2),+2,dummy,.false.)
   call convip_plus(IP3,P(3),kind(3),+2,dummy,.false.)
+  if(IP1 < 0 .or. IP2 < 0 .or. IP3 < 0) return ! OOPS, a value could not be encoded
   status=CONVERT_OK
 
   return
@@ -523,6 +524,7 @@ implicit none  ! explicit, almost independent (rp,kind) to (ip) conversion
   call convip_plus(IP1,RP1,kind1,+2,dummy,.false.)  ! NEW style encoding not negotiable
   call convip_plus(IP2,RP2,kind2,+2,dummy,.false.)
   call convip_plus(IP3,RP3,kind3,+2,dummy,.false.)
+  if(IP1 < 0 .or. IP2 < 0 .or. IP3 < 0) goto 777  ! a value could not be encoded
 
   if(kind1==kind2 .and. is_level(kind1) .and. kind3==10) then  ! level/level/time
     call swapi(ip2,ip3)  ! second level into ip3, time flag into ip2
-- 
2.43.0


From 57e8a187e85d6bc6b15a9c4a1b91b7b02caaae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 140/159] fix: DecodeIp: old style ip2 and ip3 (kinds were not
 set), levels of kinds 7 and 21

---
 src/fstd98/convert_ip123.f90 | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fstd98/convert_ip123.f90 b/src/fstd98/convert_ip123.f90
index d923a79..62e10e4 100644
--- a/src/fstd98/convert_ip123.f90
+++ b/src/fstd98/convert_ip123.f90
@@ -382,6 +382,7 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
   if(IP2 < 32768) then                          ! IP2 is old style, probably a time value
     RP2%lo = IP2 ; RP2%hi = IP2 ; 
     RP2%kind = 10                               ! time in hours ?
+    P(2) = IP2 ; kind(2) = RP2%kind
     status = ior(status , CONVERT_GOOD_GUESS)    ! reasonable guess
   else
     call convip_plus(IP2,P(2),kind(2),-1,dummy,.false.)  ! kind of ip2 should be new style time
@@ -392,6 +393,7 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
   if(IP3 < 32768) then                          ! IP3 is old style,
     RP3%lo = IP3 ; RP3%hi = IP3
     RP3%kind = 3
+    kind(3) = -1                                ! never part of a range
     status = ior(status,CONVERT_TERRIBLE_GUESS)  ! highly unreliable guess
   else
     call convip_plus(IP3,P(3),kind(3),-1,dummy,.false.)  ! kind of ip3 may be anything new style
@@ -403,17 +405,13 @@ function decode_ip_0(RP1,RP2,RP3,IP1V,IP2V,IP3V) result(status) BIND (C,name='De
     RP2%hi=P(3)
     RP3%lo=0.0 ; RP3%hi=0.0 ; RP3%kind=-1
     if(RP2%hi < RP2%lo) call swap(RP2%lo,RP2%hi)
-  elseif(kind(3)<=6 .and. kind(1)==kind(3)) then ! same level type as ip1
+  elseif(is_level(kind(3)) .and. kind(1)==kind(3)) then ! same level type as ip1
     RP1%hi=P(3)
     RP3%lo=0.0 ; RP3%hi=0.0 ; RP3%kind=-1
     if(RP1%hi < RP1%lo .and. ascending(kind(3))) call swap(RP1%lo,RP1%hi)
     if(RP1%hi > RP1%lo .and. descending(kind(3))) call swap(RP1%lo,RP1%hi)
   endif
 
-  if(kind(1) >6 .or. kind(2)/=10) then  ! ip1 must be a level, ip2 must be a time
-    status=ior(status,CONVERT_ERROR)       ! add bad coding flag
-  endif
-
 return
 
 777 status=ior(status,CONVERT_ERROR)
-- 
2.43.0


From 1f0140ca6796a9e940b3fc5dd8ce9223495da452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 141/159] fix: ConvertPKtoIP: put the levels of
 level/time/level in atmospheric order, as documented

---
 src/fstd98/convert_ip123.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fstd98/convert_ip123.f90 b/src/fstd98/convert_ip123.f90
index 62e10e4..210da76 100644
--- a/src/fstd98/convert_ip123.f90
+++ b/src/fstd98/convert_ip123.f90
@@ -530,6 +530,10 @@ implicit none  ! explicit, almost independent (rp,kind) to (ip) conversion
     if(rp1>rp3 .and.  ascending(kind1)) call swapi(ip1,ip3)  ! ip1, ip3 in atmospheric ascending order
     if(rp1<rp3 .and. descending(kind1)) call swapi(ip1,ip3)
   else
+    if(kind2==10 .and. kind1==kind3) then  ! level/time/level
+      if(rp1>rp3 .and.  ascending(kind1)) call swapi(ip1,ip3)  ! ip1, ip3 in atmospheric ascending order
+      if(rp1<rp3 .and. descending(kind1)) call swapi(ip1,ip3)
+    endif
     if(kind2==10 .and. kind3==10 .and. rp2<rp3) call swapi(ip2,ip3)  ! level/time/time, put times in descending order
   endif
   return
-- 
2.43.0


From c84da9619c3750e4b319ef695c3d3eaba75b779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 142/159] fix: c_fstinfx: ip2 and ip3 given in all their
 encodings are compared even when ip1 is not

---
 src/fstd98/fstd98.c | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index f8cacc5..16b8db0 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -1854,20 +1854,9 @@ int c_fstinfx(
     if (ip1s_flag || ip2s_flag || ip3s_flag) {
         int nomatch = 1;
         while ((lhandle >=  0) && (nomatch)) {
-            nomatch = 0;
-            if ((ip1s_flag) && (ip1 >= 0)) {
-                if (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0) {
-                    nomatch = 1;
-                } else if ((ip2s_flag) && (ip2 >= 0)) {
-                    if (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0) {
-                        nomatch = 1;
-                    } else if ((ip3s_flag) && (ip3 >= 0)) {
-                        if (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0) {
-                            nomatch = 1;
-                        }
-                    }
-                }
-            }
+            nomatch = ((ip1s_flag) && (ip1 >= 0) && (ip_is_equal(ip1, stdf_entry->ip1, 1) == 0)) ||
+                ((ip2s_flag) && (ip2 >= 0) && (ip_is_equal(ip2, stdf_entry->ip2, 2) == 0)) ||
+                ((ip3s_flag) && (ip3 >= 0) && (ip_is_equal(ip3, stdf_entry->ip3, 3) == 0));
             if (nomatch) {
                 lhandle = c_xdfloc2(iun, -1, pkeys, 16, pmask);
                 if (lhandle >= 0) c_xdfprm(lhandle, &addr, &lng, &idtyp, pkeys, 16);
-- 
2.43.0


From 9c85e679a51ea0c727bc9a577ac4fc4e66d5081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:06 +0000
Subject: [PATCH 143/159] fix: convip_plus: old style heights above 1.0e10 m
 wrapped around to the lowest code

---
 src/fstd98/convip_plus.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/convip_plus.f90 b/src/fstd98/convip_plus.f90
index 3664fd1..1fbc306 100644
--- a/src/fstd98/convip_plus.f90
+++ b/src/fstd98/convip_plus.f90
@@ -200,7 +200,7 @@ SUBROUTINE CONVIP_plus( ip, p, kind, mode, string, flagv )
       else ! OLD style encoding
 
           if (kind.eq.0) then   ! ...  hauteur ...
-              ip = max( 12001,min( 32000,nint( p/5.0 + 12001 ) ) )
+              ip = max( 12001,min( 32000,nint( min( p/5.0, 20000.0 ) + 12001 ) ) )
           elseif (kind.eq.1) then  ! ...  sigma ...
               if ( .not. (  0.0 .le. p .and. p .le. 1.0 ) ) then
                 write(app_msg,6001) p
-- 
2.43.0


From 9cd9bae125993a34c17f4456ae95daa1875d4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:48 +0000
Subject: [PATCH 144/159] fix: pack_cmd: print the command, not the
 unterminated copy (read past the end of the buffer)

---
 src/primitives/gossip_sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/gossip_sock.c b/src/primitives/gossip_sock.c
index df334e1..050eb51 100644
--- a/src/primitives/gossip_sock.c
+++ b/src/primitives/gossip_sock.c
@@ -2493,7 +2493,7 @@ void pack_cmd(const char * const buffer, char * const tmpbuf) {
     memcpy(tmpbuf, (char *)&nbytes, sizeof(int));
     memcpy(tmpbuf + sizeof(int), buffer, strlen(buffer) );
 
-    fprintf(stderr, "sending command: %s\n", tmpbuf + sizeof(int));
+    fprintf(stderr, "sending command: %s\n", buffer);
 }
 
 
-- 
2.43.0


From 3ad34278d8b401b39c5bf2ac492ede82a3b326e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:48 +0000
Subject: [PATCH 145/159] fix: ez_corrval_aunord, ausud: latitudes of
 hemispheric Gaussian grids start with row j1 (read out of bounds, wrong
 latitudes near the pole)

---
 src/interp/ez_corrval_aunord.c | 16 ++++++++--------
 src/interp/ez_corrval_ausud.c  |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/interp/ez_corrval_aunord.c b/src/interp/ez_corrval_aunord.c
index d22d51d..83e99b8 100644
--- a/src/interp/ez_corrval_aunord.c
+++ b/src/interp/ez_corrval_aunord.c
@@ -61,17 +61,17 @@ int32_t ez_corrval_aunord(float *zout, float *zin, int32_t gdin, int32_t gdout)
                 case 'Z':
                 case 'G': {
                     float ay[4];
-                    if  (lgd->ay[lgd->j2-1] == 90.0) {
-                        ay[0] = lgd->ay[lgd->j2-4];
-                        ay[1] = lgd->ay[lgd->j2-3];
-                        ay[2] = lgd->ay[lgd->j2-2];
-                        ay[3] = lgd->ay[lgd->j2-1];
+                    if  (lgd->ay[nj-1] == 90.0) {
+                        ay[0] = lgd->ay[nj-4];
+                        ay[1] = lgd->ay[nj-3];
+                        ay[2] = lgd->ay[nj-2];
+                        ay[3] = lgd->ay[nj-1];
                         f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_NORD].x, gset->zones[AU_NORD].y,&npts,
                                     lgd->ax, ay, temp,&ni, &j1, &j2, &(lgd->extension));
                     } else {
-                        ay[0] = lgd->ay[lgd->j2-3];
-                        ay[1] = lgd->ay[lgd->j2-2];
-                        ay[2] = lgd->ay[lgd->j2-1];
+                        ay[0] = lgd->ay[nj-3];
+                        ay[1] = lgd->ay[nj-2];
+                        ay[2] = lgd->ay[nj-1];
                         ay[3] = 90.0;
                         f77name(ez_irgdint_3_wnnc)(vals,gset->zones[AU_NORD].x,
                                     gset->zones[AU_NORD].y,&npts,
diff --git a/src/interp/ez_corrval_ausud.c b/src/interp/ez_corrval_ausud.c
index 2d33bda..6278761 100644
--- a/src/interp/ez_corrval_ausud.c
+++ b/src/interp/ez_corrval_ausud.c
@@ -74,7 +74,7 @@ int32_t ez_corrval_ausud(float *zout, float *zin, int32_t gdin, int32_t gdout)
 	     {
 	     case 'Z':
 	     case 'G':
-          if  (lgdin->ay[lgdin->j1-1] == -90.0)
+          if  (lgdin->ay[0] == -90.0)
              {
                 ay[0] = lgdin->ay[0];
                 ay[1] = lgdin->ay[1];
-- 
2.43.0


From 2c2fda248f1dcf4b86cb2eba23f6c862a24bdf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:17 +0000
Subject: [PATCH 146/159] fix: Extrap1D_Fixed and Extrap1D_LapseRate skipped
 the upward extrapolation of two-level columns

---
 src/interpv/Extrap1D_Fixed_Body.inc     | 7 +++++--
 src/interpv/Extrap1D_LapseRate_Body.inc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/interpv/Extrap1D_Fixed_Body.inc b/src/interpv/Extrap1D_Fixed_Body.inc
index baab8b1..9998480 100644
--- a/src/interpv/Extrap1D_Fixed_Body.inc
+++ b/src/interpv/Extrap1D_Fixed_Body.inc
@@ -88,13 +88,16 @@
           stateDestn(i,vt) =   extrapGuideDown
         endif
 
-      else if(      extrapEnableUp &
+      end if ! extrapEnableDown
+
+      ! With two source levels, the lowest and the highest positions are the same one
+      if(           extrapEnableUp &
               .and. posnDestInSrc(i,vt) == highestPossiblePosn) then
         if( vLevelDestn(i,vt) > vLevelSource(i,indexHighestLevel) ) then
           ! extrapolate above the highest source vertical lavel
           stateDestn(i,vt) = extrapGuideUp
         end if
-      end if ! extrapEnableDown
+      end if ! extrapEnableUp
     end do ! i
   end do ! vt
 !$OMP END parallel do
diff --git a/src/interpv/Extrap1D_LapseRate_Body.inc b/src/interpv/Extrap1D_LapseRate_Body.inc
index 5a391a5..299cbec 100644
--- a/src/interpv/Extrap1D_LapseRate_Body.inc
+++ b/src/interpv/Extrap1D_LapseRate_Body.inc
@@ -103,7 +103,10 @@
                                              )
         endif
 
-      else if(      extrapEnableUp &
+      end if ! extrapEnableDown
+
+      ! With two source levels, the lowest and the highest positions are the same one
+      if(           extrapEnableUp &
               .and. posnDestInSrc(i,vt) == highestPossiblePosn) then
         if( vLevelDestn(i,vt) > vLevelSource(i,indexHighestLevel) ) then
           ! extrapolate above the highest source vertical lavel
@@ -112,7 +115,7 @@
                                              - vLevelSource(i,indexHighestLevel)&
                                             )
         end if
-      end if ! extrapEnableDown
+      end if ! extrapEnableUp
     end do ! i
   end do ! vt
 !$OMP END parallel do
-- 
2.43.0


From cfc99a2331a37101a773788b66c6f21b57302366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 147/159] fix: msg_set_redirect2fileUnit: the range of levels
 of a call was kept by the next ones

---
 src/primitives/msg.F90 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitives/msg.F90 b/src/primitives/msg.F90
index 27c0ffa..a0b096a 100644
--- a/src/primitives/msg.F90
+++ b/src/primitives/msg.F90
@@ -258,9 +258,12 @@ subroutine msg_set_redirect2fileUnit(F_out_or_err,F_fileUnit)
    integer,intent(in) :: F_out_or_err
    integer,intent(in) :: F_fileUnit
    !@*/
-   integer :: i, i0=1, i1=MSG_NBLEVELS
+   integer :: i, i0, i1
    !---------------------------------------------------------------------
    if (.not.isInit_L) call msg_init()
+   ! not in the declaration: initialized there, they are kept from call to call
+   i0 = 1
+   i1 = MSG_NBLEVELS
    if (F_out_or_err == MSG_STDERR) then
       i0=MSG_ERROR
    else if (F_out_or_err == MSG_STDOUT) then
-- 
2.43.0


From be1d9a6865f978041e4d67afe8904a848d633cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 148/159] fix: message buffer: levels above the highest were
 kept as they are (flush read the units and formats out of bounds)

---
 src/primitives/msg.F90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/msg.F90 b/src/primitives/msg.F90
index a0b096a..bdf4c75 100644
--- a/src/primitives/msg.F90
+++ b/src/primitives/msg.F90
@@ -70,11 +70,12 @@ contains
       integer,intent(in) :: F_msgLevel
       character(len=*),intent(in) :: F_Message
       !@*/
-      integer :: n
+      integer :: n, msgLevel
       if (F_msgLevel < buffer_min_level) return
+      msgLevel = max(MSG_NBLEVELS0,min(F_msgLevel,MSG_NBLEVELS))
 !$omp critical
       if (nBuffer == 0 .or. .not.( &
-           F_msgLevel == levelBuffer(max(1,nBuffer)) .and. &
+           msgLevel == levelBuffer(max(1,nBuffer)) .and. &
            F_Message == msgBuffer(max(1,nBuffer))) &
            ) then
          nBuffer = nBuffer + 1
@@ -85,7 +86,7 @@ contains
             enddo
             nBuffer = MSG_NMAXBUFFER
          endif
-         levelBuffer(nBuffer) = F_msgLevel
+         levelBuffer(nBuffer) = msgLevel
          msgBuffer(nBuffer) = F_Message
       endif
 !$omp end critical
-- 
2.43.0


From 2e81c897e394b0c3a600d7c99a7373078006a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:43 +0000
Subject: [PATCH 149/159] fix: msg_buffer_flush before any other call wrote on
 uninitialized units

---
 src/primitives/msg.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/msg.F90 b/src/primitives/msg.F90
index bdf4c75..8159588 100644
--- a/src/primitives/msg.F90
+++ b/src/primitives/msg.F90
@@ -419,11 +419,13 @@ end subroutine msg_buffer_reset
 
 !/@*
 subroutine msg_buffer_flush()
+   use mod_msg, only: isInit_L
    use mod_msg_buffer, only: buffer_flush
    implicit none
    !@objective Flush (print and reset) msg buffer
    !@*/
    !---------------------------------------------------------------------
+   if (.not.isInit_L) call msg_init()
    call buffer_flush()
    !---------------------------------------------------------------------
    return
-- 
2.43.0


From ca405b7a6e6443237cbebf6361b1190724fbc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:46 +0000
Subject: [PATCH 150/159] fix: gmm_get, gmm_create: a field asked for with
 another type was looked for in the pointer table of that type (array of
 another field, or none)

---
 src/gmm/gmm_create.tmpl90 |  8 ++++++++
 src/gmm/gmm_get.tmpl90    | 11 +++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/gmm/gmm_create.tmpl90 b/src/gmm/gmm_create.tmpl90
index 90d8839..9864b90 100644
--- a/src/gmm/gmm_create.tmpl90
+++ b/src/gmm/gmm_create.tmpl90
@@ -95,6 +95,14 @@ integer function FNCNAME(gmm_create)(iname, p, field_meta, flags_arg)
             ! HOW SERIOUS AN ERROR IS THIS ?
             return
         endif
+        if (directory(cur_page)%entry(cur_entry)%data_type /= EXTENSION) then
+            write(app_msg,*) 'gmm_create: Variable name =', lcl_name, ' exists with another type or number of dimensions'
+            call lib_log(APP_LIBGMM,APP_ERROR,app_msg)
+            key = 0
+            nullify(p)
+            FNCNAME(gmm_create) = GMM_INCONSISTENT_DIMS
+            return
+        endif
         pp => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
         consistent = .true.
         ! check that all dimensions are identical
diff --git a/src/gmm/gmm_get.tmpl90 b/src/gmm/gmm_get.tmpl90
index 8831f05..925eaac 100644
--- a/src/gmm/gmm_get.tmpl90
+++ b/src/gmm/gmm_get.tmpl90
@@ -15,7 +15,6 @@ integer function FNCNAME(gmm_get)(iname, p, m)
 #endif
     type(gmm_metadata), optional, intent(out) :: m
 
-    integer :: i, array_rank
     ! name (partially redundant with attributes)
     ! attributes (name in attributes is not used)
     !  integer,intent(inout) :: reqid
@@ -44,19 +43,15 @@ integer function FNCNAME(gmm_get)(iname, p, m)
             ! return a copy of the proper entry
             m = m2
         endif
-        p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
-        do i = 1, 4
-            if (m2%l(i)%n /= 0) then
-                array_rank = i
-            endif
-        enddo
-        if (array_rank /= DIM) then
+        ! The pointers of each type and rank are in their own table
+        if (directory(cur_page)%entry(cur_entry)%data_type /= EXTENSION) then
             nullify(p)
             if (present(m)) then
                 m = GMM_NULL_METADATA
             endif
             FNCNAME(gmm_get) = GMM_INCONSISTENT_DIMS
         else
+            p => FNCNAME(gmm_ptrs)(directory(cur_page)%entry(cur_entry)%pointer_table_index)%p
             FNCNAME(gmm_get) = GMM_OK
         endif
     endif
-- 
2.43.0


From 1d714b05e1f642a8cbe3f2515c954968a9a2e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 151/159] fix: gmm_shuffle: with a missing field among three or
 more, the ones after it were not moved

---
 src/gmm/rmn_gmm_mod.F90 | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index d7bc0ce..5f3ffc1 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -1258,12 +1258,6 @@ contains
                     ier = gmm_rename(tempname, taglist(2))
                 endif
             case default
-                temp_key = key_list(nkeys)
-                do i = 2, nkeys
-                    key_list(i) = key_list(i-1)
-                enddo
-                key_list(1) = temp_key
-
                 if (key_list(nkeys) /= GMM_KEY_NOT_FOUND) then
                     ier = gmm_rename(taglist(nkeys),tempname)
                 endif
-- 
2.43.0


From c5eab37993e4bc8e53cfe54abee22040d62b5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 152/159] fix: gmm: operations on an empty directory crashed
 after gmm_keys

---
 src/gmm/rmn_gmm_mod.F90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gmm/rmn_gmm_mod.F90 b/src/gmm/rmn_gmm_mod.F90
index 5f3ffc1..47d429f 100644
--- a/src/gmm/rmn_gmm_mod.F90
+++ b/src/gmm/rmn_gmm_mod.F90
@@ -861,6 +861,11 @@ contains
         logical :: found
 
         found = .false.
+        ! Nothing was ever created (gmm_keys leaves a current entry nevertheless)
+        if (table_size == 0) then
+            cur_page = 0
+            cur_entry = 0
+        endif
         if (cur_page == 0 .and. cur_entry == 0) then
             return
         endif
-- 
2.43.0


From 9b758cdb61eb27c8502731d34728e5e3af0f6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 153/159] fix: fst: reading a small, hardly compressible
 compressed F record overran the work buffer

---
 src/fstd98/fstd98.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/fstd98.c b/src/fstd98/fstd98.c
index 16b8db0..0f01d10 100644
--- a/src/fstd98/fstd98.c
+++ b/src/fstd98/fstd98.c
@@ -2206,7 +2206,7 @@ int c_fstluk(
         // printf("Debug+ fstluk - c_float_packer_params(&header_size, &stream_size, &p1out, &p2out, (*ni) * (*nj) * (*nk))\n");
         c_float_packer_params(&header_size, &stream_size, &p1out, &p2out, (*ni) * (*nj) * (*nk));
         header_size /= sizeof(int32_t);
-        lng2 = 1 + ((*ni * *nj * *nk * 16 + 32 + 31) / 32) + header_size + 20;
+        lng2 = 4 + ((*ni * *nj * *nk * 16 + 32 + 31) / 32) + header_size + 20;
     } else if (xdf_datatyp == 133) {
         // Compressed ieee
         lng2 = 1 + lng;
-- 
2.43.0


From fda96c24c36f28f798da3e4469395db03a752623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 154/159] fix: excdes: the ig4 criterion of a search filter was
 compared with ig2

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0bf0212..39328fd 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1087,7 +1087,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
         if( (Requests[set_nb].ig1s != ig1 && Requests[set_nb].ig1s != -1)
         ||  (Requests[set_nb].ig2s != ig2 && Requests[set_nb].ig2s != -1)
         ||  (Requests[set_nb].ig3s != ig3 && Requests[set_nb].ig3s != -1)
-        ||  (Requests[set_nb].ig4s != ig2 && Requests[set_nb].ig4s != -1)
+        ||  (Requests[set_nb].ig4s != ig4 && Requests[set_nb].ig4s != -1)
         ||  (Requests[set_nb].nis  !=  ni &&  Requests[set_nb].nis != -1)
         ||  (Requests[set_nb].njs  !=  nj &&  Requests[set_nb].njs != -1)
         ||  (Requests[set_nb].nks  !=  nk &&  Requests[set_nb].nks != -1)
-- 
2.43.0


From 83f20ca74600877b50be3e64b539ae0fb8098b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 155/159] fix: excdes: a level range open on one side accepted
 every level

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 39328fd..edc1eea 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -978,7 +978,7 @@ static int match_ip(int in_use, int nelm, int *data, int ip1, int translatable)
       p3 = p1;
       kind3 = kind1;
     }
-    if(p2 > p3){                          // make sure that p2 < p3
+    if(data[0] >= 0 && data[1] >= 0 && p2 > p3){   // make sure that p2 < p3
       p0 = p3 ; p3 = p2 ; p2 = p0 ;       // swap p2 and p3 (no pint in swapping kinds as they MUST match
     }
     if(kind1 != kind2 || kind1 != kind3) return 0 ;  /* not same kind, no match */
-- 
2.43.0


From ea977addfc37749d0cd745d984ae0a4a1774d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 156/159] fix: excdes: level 0 did not match level 0 in another
 encoding

---
 src/fstd98/excdes_new.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index edc1eea..4274d3d 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1015,7 +1015,8 @@ static int match_ip(int in_use, int nelm, int *data, int ip1, int translatable)
       ip = data[i];
       ConvertIp(&ip, &p2, &kind2, mode); /* convert match reference */
       if(kind1 != kind2) continue;       /* not same kind, no match */
-      if(p2 == 0 && p1 != p2) continue ; /* if one is 0, both must be, no match */
+      if(p1 == p2) return 1 ;            /* we have a match (both may be 0) */
+      if(p2 == 0) continue ;             /* if one is 0, both must be, no match */
       delta = 1.0 - p1/p2 ;
       if(delta < 0) delta = -delta;    /* abs(relative error)  */
       if( delta < 0.000001) return 1 ; /* we have a match */
-- 
2.43.0


From 739bb66d88280cff72467561fc348eca3fcf9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 157/159] fix: excdes: a date range with an interval lost dates
 to rounding of the remainder

---
 src/fstd98/excdes_new.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 4274d3d..0d2d2ff 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -1195,7 +1195,7 @@ int C_fstmatch_parm(int handle, int datevalid, int ni, int nj, int nk,
             f77name(difdatr)(&date, &fin, &diff_fin);
             remainder = fmod(diff_deb, delta8);
             Lib_Log(APP_LIBFST, APP_EXTRA, "%s: diff_deb=%f diff_fin=%f modulo=%f\n", __func__, diff_deb, diff_fin, remainder);
-            if ((diff_deb >= 0.) && (diff_fin <= 0.) && (remainder <= (5.0/3600.))) {
+            if ((diff_deb >= 0.) && (diff_fin <= 0.) && ((remainder <= (5.0/3600.)) || (delta8 - remainder < (0.5/3600.)))) {
               amatch = 1;
               Lib_Log(APP_LIBFST, APP_DEBUG, "%s: C_fst_match_req match %s\n", __func__, desire_exclure);
             }
-- 
2.43.0


From e6a7ecbc2947ccd699912ab328ca7feefac2353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 158/159] fix: excdes: Xc_Select_ip* read past a list of two or
 three elements

---
 src/fstd98/excdes_new.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 0d2d2ff..3bf8cff 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -346,7 +346,7 @@ int Xc_Select_ip1(
 
     if (lnelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && lnelm == 5) {
+    if(lnelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip1s.data[1] = ip_entier[2];
         Requests[set_nb].ip1s.data[2] = ip_entier[4];
         Requests[set_nb].ip1s.in_use = DELTA;
@@ -411,7 +411,7 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if(nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip2s.data[1] = ip_entier[2];
         Requests[set_nb].ip2s.data[2] = ip_entier[4];
         Requests[set_nb].ip2s.in_use = DELTA;
@@ -469,7 +469,7 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
 
     if (nelm == 1 ) return 0;               /* one value, cannot be a range */
 
-    if(ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA && nelm == 5) {
+    if(nelm == 5 && ip_entier[1] == READLX_RANGE && ip_entier[3] == READLX_DELTA) {
         Requests[set_nb].ip3s.data[1] = ip_entier[2];
         Requests[set_nb].ip3s.data[2] = ip_entier[4];
         Requests[set_nb].ip3s.in_use = DELTA;
-- 
2.43.0


From ebd652e6b8574d1a9dbf109bb6ce0a7aba227154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:25 +0000
Subject: [PATCH 159/159] fix: excdes: a refused selection dropped the dates of
 its request, or wrote outside of the table

---
 src/fstd98/excdes_new.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/fstd98/excdes_new.c b/src/fstd98/excdes_new.c
index 3bf8cff..c8c22c2 100644
--- a/src/fstd98/excdes_new.c
+++ b/src/fstd98/excdes_new.c
@@ -286,8 +286,8 @@ static int ValidateRequestForSet(int set_nb, int des_exc, int nelm, int nelm_lt,
 {
     if (package_not_initialized) RequetesInit();
 
-    if (set_nb > MAX_requetes-1) {
-        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d > MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
+    if (set_nb < 0 || set_nb > MAX_requetes-1) {
+        Lib_Log(APP_LIBFST,APP_ERROR,"%s: (C_select_%s) set_nb=%d < 0 or > MAX_requetes-1=%d\n",__func__,msg,set_nb,MAX_requetes-1);
         return -1;
     }
 
@@ -330,7 +330,6 @@ int Xc_Select_ip1(
 ) {
     int valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip1");
     if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
         return -1;
     }
 
@@ -397,7 +396,6 @@ int Xc_Select_ip2(int set_nb, int des_exc, void *iplist, int nelm)
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip2");
     if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
         return -1;
     }
 
@@ -455,7 +453,6 @@ int Xc_Select_ip3(int set_nb, int des_exc, void *iplist, int nelm)
 
     valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "ip3");
     if (valid < 0) {
-        Requests[set_nb].dates.in_use = UNUSED;
         return -1;
     }
 
@@ -515,7 +512,8 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   }i_or_f;
 
   valid = ValidateRequestForSet(set_nb, des_exc, nelm, 1, "date");
-  if(valid < 0) goto error ;
+  if(valid < 0) return -1 ;
+  const DesireExclure saved = Requests[set_nb];   /* a refused list leaves the request as it was */
 
   if (date_list[0] == -1) nelm = 1;        /* universal value, rest of values if any is irrelevant */
   Requests[set_nb].in_use = USED;          /* set is in use */
@@ -559,7 +557,7 @@ int Xc_Select_date(int set_nb, int des_exc, int *date_list, int nelm)
   }
   return 0;
 error:
-  Requests[set_nb].dates.in_use = UNUSED;
+  Requests[set_nb] = saved;
   return -1;
 }
 
@@ -596,7 +594,6 @@ int Xc_Select_etiquette(int set_nb, int des_exc, char *etiq_list[], int nelm)
   }
   return 0;
 error:
-  Requests[set_nb].dates.in_use = UNUSED;
   return -1;
 }
 
@@ -633,7 +630,6 @@ int Xc_Select_nomvar(int set_nb, int des_exc, char *nomv_list[], int nelm)
   }
   return 0;
 error:
-  Requests[set_nb].dates.in_use = UNUSED;
   return -1;
 }
 
@@ -675,7 +671,6 @@ int Xc_Select_suppl(int set_nb, int des_exc, int ni, int nj, int nk, int ig1, in
 //  fprintf(stderr, "CRITSUP: ni=%d nj=%d nk=%d ig1=%d ig2=%d ig3=%d ig4=%d gtyp='%c'\n", ni, nj, nj, ig1, ig2, ig2, ig4, gtyp);
   return 0;
 error:
-  Requests[set_nb].dates.in_use = UNUSED;
   return -1;
 }
 
@@ -712,7 +707,6 @@ int Xc_Select_typvar(int set_nb, int des_exc, char *typv_list[], int nelm)
   }
   return 0;
 error:
-  Requests[set_nb].dates.in_use = UNUSED;
   return -1;
 }
 
@@ -892,7 +886,7 @@ int ReadRequestTable(char *filename)
 int C_select_groupset(int first_set_nb, int last_set_nb)
 {
   if(package_not_initialized) RequetesInit();
-  if ((first_set_nb > MAX_requetes-1) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
+  if ((first_set_nb < 0) || (first_set_nb > MAX_requetes-1) || (last_set_nb > MAX_requetes-1) || (first_set_nb > last_set_nb)) {
     Lib_Log(APP_LIBFST,APP_ERROR,"%s: first_set_nb=%d, last_set_nb=%d, MAX allowed=%d\n",__func__,first_set_nb,last_set_nb,MAX_requetes-1);
     return -1;
   }
@@ -1534,7 +1528,7 @@ int C_requetes_reset(int set_nb, int nomvars, int typvars, int etikets, int date
 {
   int j;
 
-  if (set_nb > MAX_requetes-1) {
+  if (set_nb < 0 || set_nb > MAX_requetes-1) {
     Lib_Log(APP_LIBFST,APP_ERROR,"%s: set_nb=%d > MAX allowed=%d\n",__func__,set_nb,MAX_requetes-1);
     return -1;
   }
-- 
2.43.0

