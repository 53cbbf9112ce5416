From c62de8ce79d1e140e0adee72509e79b6e6406f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 01/43] fix: report every failed write, seek and truncation of
 the object file

Writes that failed only when the stream buffer was flushed (by fseek, by the
next write or by fwrite calls whose result nobody looks at) left a truncated
object file behind with exit status 0. close_files() now checks the stream's
error indicator, and the writers check fseek() and _chsize().
---
 assemble.c |  3 +++
 bin.c      |  3 ++-
 coff.c     | 12 ++++++++----
 elf.c      | 12 ++++++++----
 macho64.c  |  3 ++-
 omf.c      | 12 ++++++++----
 6 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/assemble.c b/assemble.c
index 4c9e6e2..02a57c3 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1386,8 +1386,11 @@ void close_files( void )
 
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
+        int failed = ferror( CurrFile[OBJ] ); /* a write that failed when the stream buffer was flushed */
         if ( fclose( CurrFile[OBJ] ) != 0 )
             EmitErr( CANNOT_CLOSE_FILE, CurrFName[OBJ], errno );
+        else if ( failed )
+            EmitErr( FILE_WRITE_ERROR, CurrFName[OBJ], errno );
         CurrFile[OBJ] = NULL;
     }
     /* delete the object module if errors occured */
diff --git a/bin.c b/bin.c
index 2a503d4..420243c 100644
--- a/bin.c
+++ b/bin.c
@@ -1757,7 +1757,8 @@ static ret_code bin_write_module( struct module_info *modinfo )
 		if (size != 0 && curr->e.seginfo->CodeBuffer) {
 			DebugMsg(("bin_write_module(%s): write %" I32_SPEC "Xh bytes at offset %" I32_SPEC "Xh, initialized bytes=%" I32_SPEC "u, buffer=%p\n",
 				curr->sym.name, size, curr->e.seginfo->fileoffset, curr->e.seginfo->bytes_written, curr->e.seginfo->CodeBuffer));
-			fseek(CurrFile[OBJ], curr->e.seginfo->fileoffset, SEEK_SET);
+			if ( fseek(CurrFile[OBJ], curr->e.seginfo->fileoffset, SEEK_SET) != 0 )
+				WriteError();
 #ifdef __I86__
 			if (hfwrite(curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ]) != size)
 				WriteError();
diff --git a/coff.c b/coff.c
index f3df0e5..1c0534c 100644
--- a/coff.c
+++ b/coff.c
@@ -944,14 +944,16 @@ static ret_code coff_write_data( struct module_info *modinfo, struct coffmod *cm
                 size++;
             }
             if ( section->e.seginfo->CodeBuffer == NULL ) {
-                fseek( CurrFile[OBJ], size, SEEK_CUR );
+                if ( fseek( CurrFile[OBJ], size, SEEK_CUR ) != 0 )
+                    WriteError();
             } else {
                 /* if there was an ORG, the buffer content will
                  * start with the ORG address. The bytes from
                  * 0 - ORG must be written by moving the file pointer!
                  */
                 if ( section->e.seginfo->start_loc ) {
-                    fseek( CurrFile[OBJ], section->e.seginfo->start_loc, SEEK_CUR );
+                    if ( fseek( CurrFile[OBJ], section->e.seginfo->start_loc, SEEK_CUR ) != 0 )
+                        WriteError();
                     size -= section->e.seginfo->start_loc;
                 }
 
@@ -1231,7 +1233,8 @@ static ret_code coff_write_module( struct module_info *modinfo )
     ifh.Characteristics = 0;
 
     /* position behind coff file header */
-    fseek( CurrFile[OBJ], sizeof( ifh ), SEEK_SET );
+    if ( fseek( CurrFile[OBJ], sizeof( ifh ), SEEK_SET ) != 0 )
+        WriteError();
 
     coff_write_section_table( modinfo, &cm );
     coff_write_data( modinfo, &cm );
@@ -1249,7 +1252,8 @@ static ret_code coff_write_module( struct module_info *modinfo )
     }
 
     /* finally write the COFF file header */
-    fseek( CurrFile[OBJ], 0, SEEK_SET);
+    if ( fseek( CurrFile[OBJ], 0, SEEK_SET) != 0 )
+        WriteError();
     if ( fwrite( &ifh, 1, sizeof( ifh ), CurrFile[OBJ] ) != sizeof( ifh ) ) {
         WriteError();
     }
diff --git a/elf.c b/elf.c
index e0821e1..c99da4d 100644
--- a/elf.c
+++ b/elf.c
@@ -1229,7 +1229,8 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
         size = curr->sym.max_offset - curr->e.seginfo->start_loc;
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 ) {
-            fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
+            if ( fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET ) != 0 )
+                WriteError();
             /**/myassert( curr->e.seginfo->CodeBuffer );
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
                 WriteError();
@@ -1240,7 +1241,8 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for ( i = 0; i < NUM_INTSEGS; i++ ) {
         if ( em->internal_segs[i].data ) {
             DebugMsg(("elf_write_data(%s): internal at ofs=%X, size=%X\n", internal_segparms[i].name, em->internal_segs[i].fileoffset, em->internal_segs[i].size));
-            fseek( CurrFile[OBJ], em->internal_segs[i].fileoffset, SEEK_SET );
+            if ( fseek( CurrFile[OBJ], em->internal_segs[i].fileoffset, SEEK_SET ) != 0 )
+                WriteError();
             if ( fwrite( em->internal_segs[i].data, 1, em->internal_segs[i].size, CurrFile[OBJ] ) != em->internal_segs[i].size )
                 WriteError();
         }
@@ -1250,7 +1252,8 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
         if ( curr->e.seginfo->num_relocs ) {
             DebugMsg(("elf_write_data(%s): relocs at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->reloc_offset, curr->e.seginfo->num_relocs * sizeof(Elf32_Rel)));
-            fseek( CurrFile[OBJ], curr->e.seginfo->reloc_offset, SEEK_SET );
+            if ( fseek( CurrFile[OBJ], curr->e.seginfo->reloc_offset, SEEK_SET ) != 0 )
+                WriteError();
 #if AMD64_SUPPORT
             if ( modinfo->defOfssize == USE64 )
                 write_relocs64( curr );
@@ -1289,7 +1292,8 @@ static ret_code elf_write_module( struct module_info *modinfo )
            *(em.srcname-1) != '\\') em.srcname--;
 #endif
     /* position at 0 ( probably unnecessary, since there were no writes yet ) */
-    fseek( CurrFile[OBJ], 0, SEEK_SET );
+    if ( fseek( CurrFile[OBJ], 0, SEEK_SET ) != 0 )
+        WriteError();
 
     switch ( modinfo->defOfssize ) {
 #if AMD64_SUPPORT
diff --git a/macho64.c b/macho64.c
index bcba4b9..b978e55 100644
--- a/macho64.c
+++ b/macho64.c
@@ -716,7 +716,8 @@ static ret_code macho_write_module( struct module_info *modinfo )
 		*(mm.srcname - 1) != '\\') mm.srcname--;
 #endif
 	/* position at 0 ( probably unnecessary, since there were no writes yet ) */
-	fseek(CurrFile[OBJ], 0, SEEK_SET);
+	if ( fseek(CurrFile[OBJ], 0, SEEK_SET) != 0 )
+		WriteError();
 	
 	if( modinfo->defOfssize == USE64)
 	{
diff --git a/omf.c b/omf.c
index 18d4a60..fd35243 100644
--- a/omf.c
+++ b/omf.c
@@ -623,7 +623,8 @@ void omf_set_filepos( void )
     DebugMsg1(( "omf_set_filepos: reset file pos to %X\n", end_of_header ));
 #if MULTIHDR
 #endif
-    fseek( CurrFile[OBJ], end_of_header, SEEK_SET );
+    if ( fseek( CurrFile[OBJ], end_of_header, SEEK_SET ) != 0 )
+        WriteError();
 }
 
 static void omf_write_dosseg( void )
@@ -1593,7 +1594,8 @@ static ret_code omf_write_module( struct module_info *modinfo )
     chsize( fh, size );
 #else
     fh = _fileno( CurrFile[OBJ] );
-    _chsize( fh, size );
+    if ( _chsize( fh, size ) != 0 )
+        WriteError();
 #endif
 
 #endif
@@ -1601,12 +1603,14 @@ static ret_code omf_write_module( struct module_info *modinfo )
     /* write SEGDEF records. Since these records contain the segment's length,
      * the records have to be written again after the final assembly pass.
      */
-    fseek( CurrFile[OBJ] , seg_pos, SEEK_SET );
+    if ( fseek( CurrFile[OBJ] , seg_pos, SEEK_SET ) != 0 )
+        WriteError();
     omf_write_segdef();
     /* write PUBDEF records. Since the final value of offsets isn't known after
      * the first pass, this has to be called again after the final pass.
      */
-    fseek( CurrFile[OBJ], public_pos, SEEK_SET);
+    if ( fseek( CurrFile[OBJ], public_pos, SEEK_SET) != 0 )
+        WriteError();
     omf_write_pubdef();
     return( NOT_ERROR );
 }
-- 
2.43.0


From 4f7e4df643bdc081bc8b4f5759c839b001ccba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 02/43] fix: report failed writes of the listing, error,
 symbol, import definition and preprocessed output

A full disk or a failed write left these files truncated with exit status 0;
-Fs also used a NULL stream when its file could not be created.
---
 assemble.c | 50 +++++++++++++++++++++++++++++++++++---------------
 bin.c      |  3 ++-
 listing.c  |  9 ++++++---
 symbols.c  | 14 +++++++++++---
 4 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/assemble.c b/assemble.c
index 02a57c3..7a01d45 100644
--- a/assemble.c
+++ b/assemble.c
@@ -520,6 +520,7 @@ static ret_code WriteModule( struct module_info *modinfo )
     /* is the -Fd option given with a file name? */
     if ( Options.names[OPTN_LNKDEF_FN] ) {
         FILE *ld;
+        int failed;
         ld = fopen( Options.names[OPTN_LNKDEF_FN], "w" );
         if ( ld == NULL ) {
             return( EmitErr( CANNOT_OPEN_FILE, Options.names[OPTN_LNKDEF_FN], ErrnoStr() ) );
@@ -531,11 +532,12 @@ static ret_code WriteModule( struct module_info *modinfo )
                 int size;
                 Mangle( &curr->sym, StringBufferEnd );
                 size = sprintf( CurrSource, "import '%s'  %s.%s\n", StringBufferEnd, curr->sym.dll->name, curr->sym.name );
-                if ( fwrite( CurrSource, 1, size, ld ) != size )
-                    WriteError();
+                fwrite( CurrSource, 1, size, ld );
             }
         }
-        fclose( ld );
+        failed = ferror( ld );
+        if ( fclose( ld ) != 0 || failed )
+            return( EmitErr( FILE_WRITE_ERROR, Options.names[OPTN_LNKDEF_FN], errno ) );
     }
 #endif
     DebugMsg(("WriteModule exit\n"));
@@ -1384,6 +1386,15 @@ void close_files( void )
         CurrFile[ASM] = NULL;
     }
 
+    /* close LST file */
+    if( CurrFile[LST] != NULL ) {
+        int failed = ferror( CurrFile[LST] );
+        FILE *fp = CurrFile[LST];
+        CurrFile[LST] = NULL; /* set to NULL before EmitErr()! */
+        if ( fclose( fp ) != 0 || failed )
+            EmitErr( FILE_WRITE_ERROR, CurrFName[LST], errno );
+    }
+
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
         int failed = ferror( CurrFile[OBJ] ); /* a write that failed when the stream buffer was flushed */
@@ -1393,24 +1404,30 @@ void close_files( void )
             EmitErr( FILE_WRITE_ERROR, CurrFName[OBJ], errno );
         CurrFile[OBJ] = NULL;
     }
-    /* delete the object module if errors occured */
-    if ( Options.syntax_check_only == FALSE &&
-        ModuleInfo.g.error_count > 0 ) {
-        remove( CurrFName[OBJ] );
-    }
-
-    if( CurrFile[LST] != NULL ) {
-        fclose( CurrFile[LST] );
-        CurrFile[LST] = NULL;
-    }
 
     /* close ERR file */
     if ( CurrFile[ERR] != NULL ) {
-        fclose( CurrFile[ERR] );
+        int failed = ferror( CurrFile[ERR] );
+        FILE *fp = CurrFile[ERR];
         CurrFile[ERR] = NULL;
+        if ( fclose( fp ) != 0 || failed ) {
+            char *p = CurrFName[ERR];
+            bool no_error_disp = Options.no_error_disp;
+            CurrFName[ERR] = NULL; /* don't let EmitErr() reopen the file */
+            Options.no_error_disp = FALSE;
+            EmitErr( FILE_WRITE_ERROR, p, errno );
+            Options.no_error_disp = no_error_disp;
+            LclFree( p );
+        }
     } else if ( CurrFName[ERR] )
         /* nothing written, delete any existing ERR file */
         remove( CurrFName[ERR] );
+
+    /* delete the object module if errors occured */
+    if ( Options.syntax_check_only == FALSE &&
+        ModuleInfo.g.error_count > 0 ) {
+        remove( CurrFName[OBJ] );
+    }
     return;
 }
 
@@ -1702,7 +1719,8 @@ int EXPQUAL AssembleModule( const char *source )
 #else
         if ( CurrFile[LST] ) {
 #endif
-            rewind( CurrFile[LST] );
+            if ( fseek( CurrFile[LST], 0, SEEK_SET ) != 0 )
+                Fatal( FILE_WRITE_ERROR, CurrFName[LST], errno );
             LstInit();
         }
     } /* end for() */
@@ -1819,6 +1837,8 @@ int EXPQUAL AssembleModule( const char *source )
         LstPrintf( CurrSource );
         LstNL();
     }
+    if ( Options.preprocessor_stdout && ( fflush( stdout ) != 0 || ferror( stdout ) ) )
+        EmitErr( FILE_WRITE_ERROR, "stdout", errno );
 done:
    
 	AssembleFini();
diff --git a/bin.c b/bin.c
index 420243c..24b0482 100644
--- a/bin.c
+++ b/bin.c
@@ -1684,7 +1684,8 @@ static ret_code bin_write_module( struct module_info *modinfo )
 #if SECTORMAP
     if( CurrFile[LST] ) {
         /* go to EOF */
-        fseek( CurrFile[LST], 0, SEEK_END );
+        if ( fseek( CurrFile[LST], 0, SEEK_END ) != 0 )
+            Fatal( FILE_WRITE_ERROR, CurrFName[LST], errno );
         LstNL();
         LstNL();
         LstPrintf( szCaption );
diff --git a/listing.c b/listing.c
index e27f2a5..0a990d9 100644
--- a/listing.c
+++ b/listing.c
@@ -185,7 +185,8 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
 #endif
             DebugMsg1(("LstWrite: Pass=%u, stored pos=%" I32_SPEC "u\n", Parse_Pass+1, list_pos ));
         }
-        fseek( CurrFile[LST], list_pos, SEEK_SET );
+        if ( fseek( CurrFile[LST], list_pos, SEEK_SET ) != 0 )
+            Fatal( FILE_WRITE_ERROR, CurrFName[LST], errno );
     }
 #endif
 
@@ -419,7 +420,8 @@ void LstSetPosition( void )
 {
     if( CurrFile[LST] && ( Parse_Pass > PASS_1 ) && UseSavedState && ModuleInfo.GeneratedCode == 0 ) {
         list_pos = LineStoreCurr->list_pos;
-        fseek( CurrFile[LST], list_pos, SEEK_SET );
+        if ( fseek( CurrFile[LST], list_pos, SEEK_SET ) != 0 )
+            Fatal( FILE_WRITE_ERROR, CurrFName[LST], errno );
         ModuleInfo.line_flags |= LOF_SKIPPOS;
     }
 }
@@ -1066,7 +1068,8 @@ void LstWriteCRef( void )
     }
 
     /* go to EOF */
-    fseek( CurrFile[LST], 0, SEEK_END );
+    if ( fseek( CurrFile[LST], 0, SEEK_END ) != 0 )
+        Fatal( FILE_WRITE_ERROR, CurrFName[LST], errno );
 
     SymCount = SymGetCount();
     syms = (struct asym **)MemAlloc( SymCount * sizeof( struct asym * ) );
diff --git a/symbols.c b/symbols.c
index e970b45..fb23720 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1014,13 +1014,19 @@ void WriteSymbols()
 	int i;
 	FILE *ld;
 	int n = 0;
+	int failed;
 
 	if (Options.dumpSymbols)
 	{
 		pName = Options.names[4];
 		ld = fopen(pName, "wb");
+		if (ld == NULL)
+		{
+			EmitErr(CANNOT_OPEN_FILE, pName, ErrnoStr());
+			return;
+		}
 		sym = NULL;
-		fseek(ld, 4, SEEK_SET);
+		failed = (fseek(ld, 4, SEEK_SET) != 0);
 		while (sym = SymEnum(sym, &i)) 
 		{
 			if ((sym->state == SYM_INTERNAL && sym->offset==0 && !sym->isproc) || sym->state == SYM_MACRO || sym->state == SYM_TMACRO || sym->state == SYM_GRP) continue;
@@ -1043,9 +1049,11 @@ void WriteSymbols()
 			fwrite(&n, 1, 1, ld);
 			count++;
 		}
-		fseek(ld, 0, SEEK_SET);
+		failed |= (fseek(ld, 0, SEEK_SET) != 0);
 		fwrite(&count, 4, 1, ld);
-		fclose(ld);
+		failed |= ferror(ld);
+		if (fclose(ld) != 0 || failed)
+			EmitErr(FILE_WRITE_ERROR, pName, errno);
 	}
 }
 
-- 
2.43.0


From 06318ff5904a3e1274d4bdc2d2dd6482a3156817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 03/43] fix: make failed reads of source, include, INCBIN and
 response files errors

A read error was taken for the end of the file, so the module was assembled
from a truncated source with exit status 0. INCBIN also passed an unchecked
(and possibly negative) size to malloc().
---
 H/msgdef.h |  3 ++-
 assemble.c |  3 ++-
 cmdline.c  | 20 +++++++++-----------
 dbgcv.c    |  3 ++-
 directiv.c | 24 +++++++++++++++++-------
 input.c    |  2 ++
 omf.c      |  1 +
 7 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/H/msgdef.h b/H/msgdef.h
index 866d9cf..3fdc2ca 100644
--- a/H/msgdef.h
+++ b/H/msgdef.h
@@ -386,4 +386,5 @@ pick( NO_EVEX_FORM, "Not possible to EVEX encode requested instruction")
 pick( INVALID_REG_STRUCT_SIZE, "Invalid structure size for WIN64 by-value passing, use the address instead")
 pick( STACKBASE_NOT_SUPPORTED, "Stackbase option not supported with output format")
 pick( STACKBASE_CHANGED, "Stackbase automatically changed to RSP to support WIN64 options")
-pick( REAL10_BY_VALUE, "REAL10 are passed by reference not value")
\ No newline at end of file
+pick( REAL10_BY_VALUE, "REAL10 are passed by reference not value")
+pick( FILE_READ_ERROR,             "File read error: %s [%u]" )
diff --git a/assemble.c b/assemble.c
index 7a01d45..1c9b24d 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1709,7 +1709,8 @@ int EXPQUAL AssembleModule( const char *source )
         }
 
         /* set file position of ASM and LST files for next pass */
-        rewind( CurrFile[ASM] );
+        if ( fseek( CurrFile[ASM], 0, SEEK_SET ) != 0 )
+            Fatal( FILE_READ_ERROR, CurrFName[ASM], errno );
 
         if ( write_to_file && Options.output_format == OFORMAT_OMF )
             omf_set_filepos();
diff --git a/cmdline.c b/cmdline.c
index 8e86356..902a2d5 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -842,18 +842,16 @@ static char *ReadParamFile( const char *name )
         Fatal( CANNOT_OPEN_FILE, name, ErrnoStr() );
         return( NULL );
     }
-    len = 0;
-    if ( fseek( file, 0, SEEK_END ) == 0 ) {
-        len = ftell( file );
-        rewind( file );
-        env = MemAlloc( len + 1 );
-#if defined(__GNUC__) /* gcc warns if return value of fread() is "ignored" */
-        if ( fread( env, 1, len, file ) );
-#else
-        fread( env, 1, len, file );
-#endif
-        env[len] = NULLC;
+    if ( fseek( file, 0, SEEK_END ) != 0 || ( len = ftell( file ) ) < 0 || fseek( file, 0, SEEK_SET ) != 0 ) {
+        fclose( file );
+        Fatal( FILE_READ_ERROR, name, errno );
+    }
+    env = MemAlloc( len + 1 );
+    if ( fread( env, 1, len, file ) != len ) {
+        fclose( file );
+        Fatal( FILE_READ_ERROR, name, errno );
     }
+    env[len] = NULLC;
     fclose( file );
     if ( len == 0)
         return( NULL );
diff --git a/dbgcv.c b/dbgcv.c
index 3dd3d4e..f64eb76 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1391,7 +1391,8 @@ void cv_write_debug_tables(struct dsym* symbols, struct dsym* types, void* pv)
 #ifdef USEMD5
 			* cv.dw = 0x0110;
 			cv.ps += sizeof(uint_16);
-			calc_md5(cv.files[i].name, cv.ps);
+			if (calc_md5(cv.files[i].name, cv.ps) == 0)
+				Fatal(FILE_READ_ERROR, cv.files[i].name, errno);
 			cv.ps += 16;
 			*cv.dw = 0x0000;
 			cv.ps += sizeof(uint_16);
diff --git a/directiv.c b/directiv.c
index 3e742fb..547c496 100644
--- a/directiv.c
+++ b/directiv.c
@@ -263,13 +263,23 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
     if ( file = SearchFile( StringBufferEnd, FALSE ) ) 
 	{
 		/* v2.14 : Get File Size */
-		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
-		fseek( file, 0L, SEEK_SET );
-		pBinData = (unsigned char*)malloc(sz);
-		if ( fileoffset )
-			fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
-		result = fread(pBinData, sz, 1, file);
+		if ( fseek( file, 0L, SEEK_END ) != 0 || ( sz = ftell( file ) ) < 0 ||
+			fseek( file, fileoffset, SEEK_SET ) != 0 ) {  /* fixme: use fseek64() */
+			fclose( file );
+			return( EmitErr( FILE_READ_ERROR, StringBufferEnd, errno ) );
+		}
+		sz = ( sz > fileoffset ) ? sz - fileoffset : 0; // sz = total data size to load into segment/section.
+		pBinData = (unsigned char*)malloc( sz + 1 );
+		if ( pBinData == NULL ) {
+			fclose( file );
+			Fatal( OUT_OF_MEMORY );
+		}
+		result = fread(pBinData, 1, sz, file);
+		if ( result != sz ) {
+			free((void*)pBinData);
+			fclose( file );
+			return( EmitErr( FILE_READ_ERROR, StringBufferEnd, errno ) );
+		}
 		OutputBinBytes(pBinData, sz);
 
         /* transfer file content to the current segment. */
diff --git a/input.c b/input.c
index b92720c..343cd8b 100644
--- a/input.c
+++ b/input.c
@@ -368,6 +368,8 @@ static char *my_fgets( char *buffer, int max, FILE *fp )
             /* no break */
 #endif
         case EOF:
+            if ( ferror( fp ) ) /* don't mistake a read error for the end of the file */
+                Fatal( FILE_READ_ERROR, GetFName( get_curr_srcfile() )->fname, errno );
             *ptr = NULLC;
             return( ptr > buffer ? buffer : NULL );
         default:
diff --git a/omf.c b/omf.c
index fd35243..c736b32 100644
--- a/omf.c
+++ b/omf.c
@@ -1266,6 +1266,7 @@ static time_t GetFileTimeStamp( const char *filename )
 
     if( _stat( filename, &statbuf ) != 0 ) {
         DebugMsg(("GetFileTimeStamp(%s): _stat() did return 0\n", filename ));
+        Fatal( FILE_READ_ERROR, filename, errno );
         return( 0 );
     }
     return( statbuf.st_mtime );
-- 
2.43.0


From 16bc733ed5ebee046f8aff065924c3e5ab3da6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 04/43] fix: exit status is nonzero if any module failed, not
 only the last one

---
 main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main.c b/main.c
index a42a973..8c98650 100644
--- a/main.c
+++ b/main.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv)
 	int     numArgs = 0;
 	int     numFiles = 0;
 	int     rc = 0;
+	int     failed = 0; /* set if any module couldn't be assembled */
 
 #if WILDCARDS
 	/* v2.11: _findfirst/next/close() handle, should be of type intptr_t.
@@ -123,6 +124,7 @@ int main(int argc, char **argv)
 		if ((fh = _findfirst(Options.names[ASM], &finfo)) == -1) {
 			DebugMsg(("main: _findfirst(%s) failed\n", Options.names[ASM]));
 			EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+			failed = 1;
 			break;
 		}
 		pfn = GetFNamePart(Options.names[ASM]);
@@ -132,10 +134,14 @@ int main(int argc, char **argv)
 				strcpy(&fname[dirsize], finfo.name);
 				DebugMsg(("main: fname=%s\n", fname));
 				rc = AssembleModule(fname);  /* assemble 1 module */
+				if (rc == 0)
+					failed = 1;
 			} while ((_findnext(fh, &finfo) != -1));
 		    _findclose(fh);
 #else
 		rc = AssembleModule( Options.names[ASM] );
+		if (rc == 0)
+			failed = 1;
 #endif
 	};
 	CmdlineFini();
@@ -150,6 +156,8 @@ int main(int argc, char **argv)
 	tm_Fini();
 #endif
 
+	if (failed)
+		rc = 0;
 	DebugMsg(("main: exit, return code=%u\n", 1 - rc));
 	return(1 - rc); /* zero if no errors */
 }
-- 
2.43.0


From e5dc4f4f2d8326f56a6d82bcac7f122bb6d6485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 05/43] fix: an interrupted assembly deletes its incomplete
 object module

close_files() deletes the object only if errors were counted, which the
SIGBREAK/SIGTERM handler didn't do. The handler may also run before the object
file's name is known.
---
 assemble.c | 2 +-
 main.c     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 1c9b24d..422fe79 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1424,7 +1424,7 @@ void close_files( void )
         remove( CurrFName[ERR] );
 
     /* delete the object module if errors occured */
-    if ( Options.syntax_check_only == FALSE &&
+    if ( Options.syntax_check_only == FALSE && CurrFName[OBJ] &&
         ModuleInfo.g.error_count > 0 ) {
         remove( CurrFName[OBJ] );
     }
diff --git a/main.c b/main.c
index 8c98650..cacb1b4 100644
--- a/main.c
+++ b/main.c
@@ -55,6 +55,7 @@ static void genfailure( int signo )
     if (signo != SIGTERM)
 #endif
         EmitError( GENERAL_FAILURE );
+    ModuleInfo.g.error_count++; /* let close_files() delete the incomplete object module */
     close_files();
     exit( EXIT_FAILURE );
 }
-- 
2.43.0


From 79c1ef9c42d4ff9208a3d29b0e15ee5a0d33bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 06/43] fix: check allocations that were used without a check

The instruction table, the built-in macros, the Mach-O writer and the ORG fixups
used malloc() results unchecked, and a source file was on the source stack
before its name was, so the out of memory message itself crashed.
---
 codegenv2.c |  3 ++-
 input.c     |  7 +++++--
 macho64.c   | 14 +++++++-------
 macrolib.c  |  4 ++--
 orgfixup.c  |  2 +-
 5 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..f589323 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -3,6 +3,7 @@
 
 #include <time.h>
 #include "globals.h"
+#include "memalloc.h"
 #include "parser.h"
 #include "segment.h"
 #include "extern.h"
@@ -47,7 +48,7 @@ static unsigned int hash(const uint_8* data, int size)
 
 struct Instr_Def* AllocInstruction()
 {
-	return malloc(sizeof(struct Instr_Def));
+	return MemAlloc(sizeof(struct Instr_Def));
 }
 
 void InsertInstruction(struct Instr_Def* pInstruction, uint_32 hash)
diff --git a/input.c b/input.c
index 343cd8b..1246049 100644
--- a/input.c
+++ b/input.c
@@ -590,6 +590,7 @@ FILE *SearchFile( const char *path, bool queue )
     struct src_item *fl;
     const char  *fn;
     bool        isabs;
+    unsigned    index;
     char        fullpath[FILENAME_MAX];
 
     DebugMsg1(("SearchFile(%s) enter\n", path ));
@@ -666,8 +667,9 @@ FILE *SearchFile( const char *path, bool queue )
      * assembly files usually are, but binary files ( INCBIN ) aren't.
      */
     if ( queue ) {
+        index = AddFile( path );
         fl = PushSrcItem( SIT_FILE, file );
-        fl->srcfile = AddFile( path );
+        fl->srcfile = index;
         FileCur->string_ptr = GetFName( fl->srcfile )->fname;
 #if FILESEQ
         if ( Options.line_numbers && Parse_Pass == PASS_1 )
@@ -870,8 +872,9 @@ void InputInit( void )
     /* behind the comment buffer is the token buffer */
     ModuleInfo.tokenarray = (struct asm_tok *)( srclinebuffer + SIZE_SRCLINES );
     token_stringbuf = srclinebuffer + SIZE_SRCLINES + SIZE_TOKENARRAY;
+    ModuleInfo.srcfile = AddFile( CurrFName[ASM] );
     fl = PushSrcItem( SIT_FILE, CurrFile[ASM] );
-    fl->srcfile = ModuleInfo.srcfile = AddFile( CurrFName[ASM] );
+    fl->srcfile = ModuleInfo.srcfile;
     FileCur->string_ptr = GetFName( fl->srcfile )->fname;
 }
 
diff --git a/macho64.c b/macho64.c
index b978e55..68eddda 100644
--- a/macho64.c
+++ b/macho64.c
@@ -104,7 +104,7 @@ Build a segment_command_64 structure.
 struct segment_command_64 * macho_build_seg_cmd( int fileofs )
 {
 	struct segment_command_64 *pCmd = NULL;
-	pCmd = malloc(sizeof(struct segment_command_64));
+	pCmd = MemAlloc(sizeof(struct segment_command_64));
 	memset(pCmd,0,sizeof(struct segment_command_64));
 	
 	pCmd->cmd      = LC_SEGMENT_64;
@@ -129,7 +129,7 @@ Build a symtabl_command structure.
 struct symtab_command * macho_build_symtbl_cmd()
 {
 	struct symtab_command *pCmd = NULL;
-	pCmd = malloc(sizeof(struct symtab_command));
+	pCmd = MemAlloc(sizeof(struct symtab_command));
 	memset(pCmd, 0, sizeof(struct symtab_command));
 
 	pCmd->cmd = LC_SYMTAB;
@@ -145,7 +145,7 @@ struct symtab_command * macho_build_symtbl_cmd()
 struct dysymtab_command * macho_build_dysymtbl_cmd()
 {
 	struct dysymtab_command *pCmd = NULL;
-	pCmd = malloc(sizeof(struct dysymtab_command));
+	pCmd = MemAlloc(sizeof(struct dysymtab_command));
 	memset(pCmd, 0, sizeof(struct dysymtab_command));
 
 	pCmd->cmd = LC_DYSYMTAB;
@@ -205,7 +205,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state != SYM_EXTERNAL && !sym->ispublic && sym->used)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -225,7 +225,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->ispublic)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -245,7 +245,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state == SYM_EXTERNAL)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -283,7 +283,7 @@ Build a macho_section_entry structure.
 struct section_64 * macho_build_section( const char *secName, const char *segName, uint32_t flags, const char *srcName )
 {
 	struct macho_section_entry *pSec = NULL;
-	pSec = malloc(sizeof(struct macho_section_entry));
+	pSec = MemAlloc(sizeof(struct macho_section_entry));
 	memset(pSec, 0, sizeof(struct macho_section_entry));
 
 	pSec->srcName = srcName;
diff --git a/macrolib.c b/macrolib.c
index 9567c9d..ba7d7e6 100644
--- a/macrolib.c
+++ b/macrolib.c
@@ -303,7 +303,7 @@ void InitAutoMacros64(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)malloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
 			if(srcLines[j])
 				strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
@@ -367,7 +367,7 @@ void InitAutoMacros32(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)malloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
 			strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
 		mac = CreateMacro(macName32[i]);
diff --git a/orgfixup.c b/orgfixup.c
index 2233ef1..63970d8 100644
--- a/orgfixup.c
+++ b/orgfixup.c
@@ -12,7 +12,7 @@ struct orgFixup *pOrgTable = NULL;
 void AddOrgFixup(int curPos, int orgValue)
 {
 	struct orgFixup *curPtr = pOrgTable;
-	struct orgFixup *pFixup = (struct orgFixup*)malloc(sizeof(struct orgFixup));
+	struct orgFixup *pFixup = (struct orgFixup*)MemAlloc(sizeof(struct orgFixup));
 	pFixup->startPos = curPos;
 	pFixup->orgValue = orgValue;
 	pFixup->pNext = NULL;
-- 
2.43.0


From 3468986bcf10cb04651b5098c2bb9ab7d700a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 07/43] fix: close_files() can't close a file twice when the
 error limit is reached in it

---
 assemble.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/assemble.c b/assemble.c
index 422fe79..79bcbc8 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1381,9 +1381,10 @@ void close_files( void )
 
     /* close ASM file */
     if( CurrFile[ASM] != NULL ) {
-        if( fclose( CurrFile[ASM] ) != 0 )
+        FILE *fp = CurrFile[ASM];
+        CurrFile[ASM] = NULL; /* EmitErr() is fatal if the error limit is reached */
+        if( fclose( fp ) != 0 )
             EmitErr( CANNOT_CLOSE_FILE, CurrFName[ASM], errno );
-        CurrFile[ASM] = NULL;
     }
 
     /* close LST file */
@@ -1398,11 +1399,12 @@ void close_files( void )
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
         int failed = ferror( CurrFile[OBJ] ); /* a write that failed when the stream buffer was flushed */
-        if ( fclose( CurrFile[OBJ] ) != 0 )
+        FILE *fp = CurrFile[OBJ];
+        CurrFile[OBJ] = NULL;
+        if ( fclose( fp ) != 0 )
             EmitErr( CANNOT_CLOSE_FILE, CurrFName[OBJ], errno );
         else if ( failed )
             EmitErr( FILE_WRITE_ERROR, CurrFName[OBJ], errno );
-        CurrFile[OBJ] = NULL;
     }
 
     /* close ERR file */
-- 
2.43.0


From 181dc0c13ede023e824fe9758a146cb9c722e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 08/43] fix: free the lines of the built-in macros with the
 module

---
 macrolib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macrolib.c b/macrolib.c
index ba7d7e6..203da57 100644
--- a/macrolib.c
+++ b/macrolib.c
@@ -303,7 +303,7 @@ void InitAutoMacros64(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)LclAlloc(MAX_LINE_LEN);
 			if(srcLines[j])
 				strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
@@ -367,7 +367,7 @@ void InitAutoMacros32(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)LclAlloc(MAX_LINE_LEN);
 			strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
 		mac = CreateMacro(macName32[i]);
-- 
2.43.0


From 875e0416e57827426338cd8d563e899d0bd572bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 09/43] fix: the symbol dump contains no addresses of the
 running process

---
 symbols.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbols.c b/symbols.c
index fb23720..d771949 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1015,6 +1015,7 @@ void WriteSymbols()
 	FILE *ld;
 	int n = 0;
 	int failed;
+	uint_32 size;
 
 	if (Options.dumpSymbols)
 	{
@@ -1043,7 +1044,9 @@ void WriteSymbols()
 			else
 				fwrite("L", 1, 1, ld);
 			fwrite(&(sym->offset), 4, 1, ld);
-			fwrite(&(sym->total_size), 4, 1, ld);
+			/* the field holds a pointer if the symbol is an external */
+			size = (sym->state == SYM_EXTERNAL && !sym->iscomm) ? 0 : sym->total_size;
+			fwrite(&size, 4, 1, ld);
 			fwrite(&(sym->mem_type), 4, 1, ld);
 			fwrite(sym->name, 1, strlen(sym->name), ld);
 			fwrite(&n, 1, 1, ld);
-- 
2.43.0


From 17f332ccde5faa3bf9835ab76fd4b1f06b55d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 10/43] fix: AssembleFini() may be entered again after a fatal
 error in close_files()

---
 assemble.c | 16 ++++++++--------
 input.c    |  4 +++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/assemble.c b/assemble.c
index 79bcbc8..347a927 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1381,27 +1381,27 @@ void close_files( void )
 
     /* close ASM file */
     if( CurrFile[ASM] != NULL ) {
-        FILE *fp = CurrFile[ASM];
+        int rc = fclose( CurrFile[ASM] );
         CurrFile[ASM] = NULL; /* EmitErr() is fatal if the error limit is reached */
-        if( fclose( fp ) != 0 )
+        if( rc != 0 )
             EmitErr( CANNOT_CLOSE_FILE, CurrFName[ASM], errno );
     }
 
     /* close LST file */
     if( CurrFile[LST] != NULL ) {
         int failed = ferror( CurrFile[LST] );
-        FILE *fp = CurrFile[LST];
+        failed |= ( fclose( CurrFile[LST] ) != 0 );
         CurrFile[LST] = NULL; /* set to NULL before EmitErr()! */
-        if ( fclose( fp ) != 0 || failed )
+        if ( failed )
             EmitErr( FILE_WRITE_ERROR, CurrFName[LST], errno );
     }
 
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
         int failed = ferror( CurrFile[OBJ] ); /* a write that failed when the stream buffer was flushed */
-        FILE *fp = CurrFile[OBJ];
+        int rc = fclose( CurrFile[OBJ] );
         CurrFile[OBJ] = NULL;
-        if ( fclose( fp ) != 0 )
+        if ( rc != 0 )
             EmitErr( CANNOT_CLOSE_FILE, CurrFName[OBJ], errno );
         else if ( failed )
             EmitErr( FILE_WRITE_ERROR, CurrFName[OBJ], errno );
@@ -1410,9 +1410,9 @@ void close_files( void )
     /* close ERR file */
     if ( CurrFile[ERR] != NULL ) {
         int failed = ferror( CurrFile[ERR] );
-        FILE *fp = CurrFile[ERR];
+        failed |= ( fclose( CurrFile[ERR] ) != 0 );
         CurrFile[ERR] = NULL;
-        if ( fclose( fp ) != 0 || failed ) {
+        if ( failed ) {
             char *p = CurrFName[ERR];
             bool no_error_disp = Options.no_error_disp;
             CurrFName[ERR] = NULL; /* don't let EmitErr() reopen the file */
diff --git a/input.c b/input.c
index 1246049..e268028 100644
--- a/input.c
+++ b/input.c
@@ -895,8 +895,10 @@ void InputPassInit( void )
 void InputFini( void )
 /********************/
 {
-    if ( ModuleInfo.g.IncludePath )
+    if ( ModuleInfo.g.IncludePath ) {
         MemFree( ModuleInfo.g.IncludePath );
+        ModuleInfo.g.IncludePath = NULL; /* AssembleFini() may be entered twice */
+    }
 
     /* free items in ModuleInfo.g.FNames ( and FreeFile, if FASTMEM==0 ) */
     FreeFiles();
-- 
2.43.0


From 376de1275862daa1359d41598ec68db9c807ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 11/43] fix: the Mach-O writer's tables are freed with the
 module

---
 macho64.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/macho64.c b/macho64.c
index 68eddda..24d5b65 100644
--- a/macho64.c
+++ b/macho64.c
@@ -104,7 +104,7 @@ Build a segment_command_64 structure.
 struct segment_command_64 * macho_build_seg_cmd( int fileofs )
 {
 	struct segment_command_64 *pCmd = NULL;
-	pCmd = MemAlloc(sizeof(struct segment_command_64));
+	pCmd = LclAlloc(sizeof(struct segment_command_64));
 	memset(pCmd,0,sizeof(struct segment_command_64));
 	
 	pCmd->cmd      = LC_SEGMENT_64;
@@ -129,7 +129,7 @@ Build a symtabl_command structure.
 struct symtab_command * macho_build_symtbl_cmd()
 {
 	struct symtab_command *pCmd = NULL;
-	pCmd = MemAlloc(sizeof(struct symtab_command));
+	pCmd = LclAlloc(sizeof(struct symtab_command));
 	memset(pCmd, 0, sizeof(struct symtab_command));
 
 	pCmd->cmd = LC_SYMTAB;
@@ -145,7 +145,7 @@ struct symtab_command * macho_build_symtbl_cmd()
 struct dysymtab_command * macho_build_dysymtbl_cmd()
 {
 	struct dysymtab_command *pCmd = NULL;
-	pCmd = MemAlloc(sizeof(struct dysymtab_command));
+	pCmd = LclAlloc(sizeof(struct dysymtab_command));
 	memset(pCmd, 0, sizeof(struct dysymtab_command));
 
 	pCmd->cmd = LC_DYSYMTAB;
@@ -205,7 +205,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state != SYM_EXTERNAL && !sym->ispublic && sym->used)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = MemAlloc(sizeof(struct strentry));
+				pstr = LclAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -225,7 +225,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->ispublic)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = MemAlloc(sizeof(struct strentry));
+				pstr = LclAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -245,7 +245,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state == SYM_EXTERNAL)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = MemAlloc(sizeof(struct strentry));
+				pstr = LclAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -283,7 +283,7 @@ Build a macho_section_entry structure.
 struct section_64 * macho_build_section( const char *secName, const char *segName, uint32_t flags, const char *srcName )
 {
 	struct macho_section_entry *pSec = NULL;
-	pSec = MemAlloc(sizeof(struct macho_section_entry));
+	pSec = LclAlloc(sizeof(struct macho_section_entry));
 	memset(pSec, 0, sizeof(struct macho_section_entry));
 
 	pSec->srcName = srcName;
-- 
2.43.0


From fd53d8103976376e0b27d80839b8c0d8fd3bb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 12/43] fix: options set by a source file do not affect the
 modules that follow it

---
 assemble.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/assemble.c b/assemble.c
index 347a927..63bc8e1 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1597,6 +1597,8 @@ int EXPQUAL AssembleModule( const char *source )
     struct dsym   *seg;
 
 	struct module_info tempInfo;
+	struct global_options cmdlineOptions; /* the source may change options; this must not affect the next module */
+	unsigned char cmdlineArch;
 
 #ifdef _WIN32
 	CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -1609,6 +1611,8 @@ int EXPQUAL AssembleModule( const char *source )
 
     DebugMsg(("AssembleModule(\"%s\") enter\n", source ));
 
+	cmdlineOptions = Options;
+	cmdlineArch    = MODULEARCH;
 	tempInfo.frame_auto   = ModuleInfo.frame_auto;
 	tempInfo.fctype       = ModuleInfo.fctype;
 	tempInfo.langtype     = ModuleInfo.langtype;
@@ -1846,6 +1850,16 @@ done:
    
 	AssembleFini();
 	ResetOrgFixup();
+
+	/* restore the settings of the command line */
+	Options = cmdlineOptions;
+	MODULEARCH = cmdlineArch;
+	ModuleInfo.frame_auto   = tempInfo.frame_auto;
+	ModuleInfo.fctype       = tempInfo.fctype;
+	ModuleInfo.langtype     = tempInfo.langtype;
+	ModuleInfo.sub_format   = tempInfo.sub_format;
+	ModuleInfo.win64_flags  = tempInfo.win64_flags;
+	ModuleInfo.switch_style = tempInfo.switch_style;
     DebugMsg(("AssembleModule exit\n"));
     return( ModuleInfo.g.error_count == 0 );
 }
-- 
2.43.0


From 9ea38e10d8ec773170cc07c47a67dca6634baa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 13/43] fix: @ReservedStack of the previous module is not used
 in the next one

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index 63bc8e1..3a430b1 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1535,6 +1535,7 @@ static void AssembleInit( const char *source )
 #endif
     ReswTableInit();
     SymInit();
+    sym_ReservedStack = NULL; /* a symbol of the previous module is gone */
     InputInit();
     ModuleInit();
     CondInit();
-- 
2.43.0


From dca12478b486a2b83869b9331d51b8a64b77937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 14/43] fix: resetting the OMF indices of weak externals leaves
 no half of a pointer behind

---
 omf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omf.c b/omf.c
index c736b32..a86268a 100644
--- a/omf.c
+++ b/omf.c
@@ -1110,7 +1110,7 @@ static uint_16 omf_write_extdef( void )
              * - else an invalid object file will be created!
              */
         if ( symext->sym.iscomm == FALSE && symext->sym.altname && symext->sym.altname->state != SYM_EXTERNAL )
-            symext->sym.altname->ext_idx = 0;
+            symext->sym.altname->bp_fixup = NULL; /* clears the indices and also the upper half of the pointer */
     }
     /* v2.09: write COMM items here. This allows to handle
      * the external index field entirely in omf.c
-- 
2.43.0


From 46b9dc4364f84b7540614e42ca4bf21ff5cc4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 15/43] fix: INVOKE doesn't read an uninitialised flag of a
 previous parameter (C08, C06)

---
 invoke.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/invoke.c b/invoke.c
index d0678a7..73a6d94 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3225,6 +3225,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 	previ = i;
 	i++;
+	isString[reqParam] = FALSE; /* may not be reached in the loop below */
 	for (currParm = 0; currParm <= reqParam; )
 	{
 		if (tokenarray[i].token == T_FINAL) { /* this is no real error! */
-- 
2.43.0


From d393d9e91ad3734f0800e7a5c1336b444519d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 16/43] fix: the OMF listing doesn't show code bytes of a
 previous module (C08)

---
 segment.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment.c b/segment.c
index 26f7a63..cb4349b 100644
--- a/segment.c
+++ b/segment.c
@@ -1175,6 +1175,7 @@ void SegmentInit( int pass )
     if ( pass == PASS_1 ) {
         grpdefidx   = 0;
         buffer_size = 0;
+        memset( codebuf, 0, sizeof( codebuf ) ); /* the listing may show bytes not written by this module */
         CV8Label = NULL;
     }
 
-- 
2.43.0


From 31a36cc5dc6f701f35a7eba8e4a2d79836098a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 17/43] fix: OPTION EVEX of a previous module isn't active in
 the next one (C08)

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index 3a430b1..6a024f4 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1536,6 +1536,7 @@ static void AssembleInit( const char *source )
     ReswTableInit();
     SymInit();
     sym_ReservedStack = NULL; /* a symbol of the previous module is gone */
+    evex = FALSE;             /* OPTION EVEX is for one module only */
     InputInit();
     ModuleInit();
     CondInit();
-- 
2.43.0


From 1b32d9569af6a59282d0d44561d92a3d78b694da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 18/43] fix: names of simplified segments of a previous module
 aren't used in the next one (C08)

---
 H/segment.h |  1 +
 segment.c   |  1 +
 simsegm.c   | 10 ++++++++++
 3 files changed, 12 insertions(+)

diff --git a/H/segment.h b/H/segment.h
index e766ea2..bc7071f 100644
--- a/H/segment.h
+++ b/H/segment.h
@@ -71,6 +71,7 @@ enum sim_seg {
 
 extern char             *SimGetSegName( enum sim_seg );
 extern const char       *GetCodeClass( void );
+extern void             SimSegmInit( void );    /* reset names of simplified segments */
 extern ret_code         ModelSimSegmInit( int type );
 extern void             ModelSimSegmExit( void );
 extern void             SetModelDefaultSegNames( void );
diff --git a/segment.c b/segment.c
index cb4349b..a64dd9a 100644
--- a/segment.c
+++ b/segment.c
@@ -1175,6 +1175,7 @@ void SegmentInit( int pass )
     if ( pass == PASS_1 ) {
         grpdefidx   = 0;
         buffer_size = 0;
+        SimSegmInit();
         memset( codebuf, 0, sizeof( codebuf ) ); /* the listing may show bytes not written by this module */
         CV8Label = NULL;
     }
diff --git a/simsegm.c b/simsegm.c
index 85e6300..846a383 100644
--- a/simsegm.c
+++ b/simsegm.c
@@ -381,6 +381,16 @@ void SetModelDefaultSegNames( void )
  * and the caller will run RunLineQueue() later.
  * Called for each pass.
  */
+/* Called once per module: the names are set by .MODEL only,
+ * those of a previous module must not be used.
+ */
+
+void SimSegmInit( void )
+/**********************/
+{
+    memset( SegmNames, 0, sizeof( SegmNames ) );
+}
+
 ret_code ModelSimSegmInit( int model )
 /************************************/
 {
-- 
2.43.0


From defcf3bc0a831508f29f78ab8d48a5e96ff0a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 19/43] fix: a failed directory search in a wildcard loop is an
 error, not the end of the list (C09)

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index cacb1b4..1f3c98f 100644
--- a/main.c
+++ b/main.c
@@ -137,7 +137,12 @@ int main(int argc, char **argv)
 				rc = AssembleModule(fname);  /* assemble 1 module */
 				if (rc == 0)
 					failed = 1;
+				errno = ENOENT;
 			} while ((_findnext(fh, &finfo) != -1));
+			if (errno != ENOENT) { /* ENOENT: no more files */
+				EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+				failed = 1;
+			}
 		    _findclose(fh);
 #else
 		rc = AssembleModule( Options.names[ASM] );
-- 
2.43.0


From da1a7178eecd1cf5bfe2d42280537fe5964e32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 20/43] fix: ELF writer crashed for a data section without
 initialized data

---
 elf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elf.c b/elf.c
index c99da4d..a249e3f 100644
--- a/elf.c
+++ b/elf.c
@@ -1228,10 +1228,10 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
         size = curr->sym.max_offset - curr->e.seginfo->start_loc;
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
-        if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 ) {
+        /* no code buffer if the section contains uninitialized data only; the hole in the file is zero */
+        if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 && curr->e.seginfo->CodeBuffer ) {
             if ( fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET ) != 0 )
                 WriteError();
-            /**/myassert( curr->e.seginfo->CodeBuffer );
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
                 WriteError();
         }
-- 
2.43.0


From a5f7980f9d1a0cb2ac867eddfed2bcbb4a424721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 21/43] fix: a failing last flush is reported even if the
 runtime's fclose() loses it (C01, C02)

---
 assemble.c | 9 +++++----
 symbols.c  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/assemble.c b/assemble.c
index 6a024f4..28f8ec4 100644
--- a/assemble.c
+++ b/assemble.c
@@ -535,7 +535,7 @@ static ret_code WriteModule( struct module_info *modinfo )
                 fwrite( CurrSource, 1, size, ld );
             }
         }
-        failed = ferror( ld );
+        failed = ( fflush( ld ) != 0 || ferror( ld ) );
         if ( fclose( ld ) != 0 || failed )
             return( EmitErr( FILE_WRITE_ERROR, Options.names[OPTN_LNKDEF_FN], errno ) );
     }
@@ -1389,7 +1389,8 @@ void close_files( void )
 
     /* close LST file */
     if( CurrFile[LST] != NULL ) {
-        int failed = ferror( CurrFile[LST] );
+        /* flush first, the fclose() of some runtimes doesn't tell if the last flush failed */
+        int failed = ( fflush( CurrFile[LST] ) != 0 || ferror( CurrFile[LST] ) );
         failed |= ( fclose( CurrFile[LST] ) != 0 );
         CurrFile[LST] = NULL; /* set to NULL before EmitErr()! */
         if ( failed )
@@ -1398,7 +1399,7 @@ void close_files( void )
 
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
-        int failed = ferror( CurrFile[OBJ] ); /* a write that failed when the stream buffer was flushed */
+        int failed = ( fflush( CurrFile[OBJ] ) != 0 || ferror( CurrFile[OBJ] ) ); /* a write that failed when the stream buffer was flushed */
         int rc = fclose( CurrFile[OBJ] );
         CurrFile[OBJ] = NULL;
         if ( rc != 0 )
@@ -1409,7 +1410,7 @@ void close_files( void )
 
     /* close ERR file */
     if ( CurrFile[ERR] != NULL ) {
-        int failed = ferror( CurrFile[ERR] );
+        int failed = ( fflush( CurrFile[ERR] ) != 0 || ferror( CurrFile[ERR] ) );
         failed |= ( fclose( CurrFile[ERR] ) != 0 );
         CurrFile[ERR] = NULL;
         if ( failed ) {
diff --git a/symbols.c b/symbols.c
index d771949..93f071e 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1054,7 +1054,7 @@ void WriteSymbols()
 		}
 		failed |= (fseek(ld, 0, SEEK_SET) != 0);
 		fwrite(&count, 4, 1, ld);
-		failed |= ferror(ld);
+		failed |= (fflush(ld) != 0 || ferror(ld));
 		if (fclose(ld) != 0 || failed)
 			EmitErr(FILE_WRITE_ERROR, pName, errno);
 	}
-- 
2.43.0


From 1b698cdd336ffb133ce3a5ed7e186f32f781a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 22/43] fix: time stamps are written to their 32-bit fields
 only (C07)

---
 bin.c  | 5 +++--
 coff.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin.c b/bin.c
index 24b0482..ede7ef1 100644
--- a/bin.c
+++ b/bin.c
@@ -779,7 +779,8 @@ void pe_create_PE_header( void )
 #if 0 //def __UNIX__
         time((int_32 *)(pehdr->e.seginfo->CodeBuffer+offsetof( struct IMAGE_PE_HEADER32, FileHeader.TimeDateStamp )));
 #else
-        time((time_t *)(pehdr->e.seginfo->CodeBuffer+offsetof( struct IMAGE_PE_HEADER32, FileHeader.TimeDateStamp )));
+        /* the field has 32 bits, time_t may have 64 */
+        ((struct IMAGE_PE_HEADER32 *)pehdr->e.seginfo->CodeBuffer)->FileHeader.TimeDateStamp = (uint_32)time( NULL );
 #endif
         sym = CreateVariable( "@pe_file_flags", ((struct IMAGE_PE_HEADER32 *)p)->FileHeader.Characteristics );
         if ( sym ) {
@@ -912,7 +913,7 @@ static void pe_emit_export_data( void )
 #if 0 //def __UNIX__
         time( &timedate );
 #else
-        time( (time_t *)&timedate );
+        timedate = (int_32)time( NULL ); /* 32 bits, time_t may have 64 */
 #endif
         /* create export directory: Characteristics, Timedate, MajMin, Name, Base, ... */
         AddLineQueueX( "DD 0, 0%xh, 0, %r @%s_name, %u, %u, %u, %r @%s_func, %r @%s_names, %r @%s_nameord",
diff --git a/coff.c b/coff.c
index 1c0534c..f868024 100644
--- a/coff.c
+++ b/coff.c
@@ -1228,7 +1228,7 @@ static ret_code coff_write_module( struct module_info *modinfo )
         ifh.Machine = IMAGE_FILE_MACHINE_I386;
 
     ifh.NumberOfSections = modinfo->g.num_segs;
-    time((time_t *)&ifh.TimeDateStamp);
+    ifh.TimeDateStamp = (uint_32)time( NULL ); /* 32 bits, time_t may have 64 */
     ifh.SizeOfOptionalHeader = 0;
     ifh.Characteristics = 0;
 
-- 
2.43.0


From 44f9086f3ac2e7f133979cd568c4f713b5716229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 23/43] hook: seeded internal decisions for the simulation
 (superfluous passes, arena block size, hash bits), UASM_SIM only

---
 H/simhook.h | 20 ++++++++++++++++++++
 assemble.c  |  5 +++++
 memalloc.c  |  5 +++++
 symbols.c   | 12 ++++++++++++
 4 files changed, 42 insertions(+)
 create mode 100644 H/simhook.h

diff --git a/H/simhook.h b/H/simhook.h
new file mode 100644
index 0000000..907998e
--- /dev/null
+++ b/H/simhook.h
@@ -0,0 +1,20 @@
+/* Hooks for the deterministic simulation; nothing of it exists unless UASM_SIM is defined.
+ * The environment variable UASM_SIM holds decisions of the simulator as "name=value,name=value". */
+#ifndef SIMHOOK_H_INCLUDED
+#define SIMHOOK_H_INCLUDED
+#ifdef UASM_SIM
+#include <stdlib.h>
+#include <string.h>
+static int SimHook( const char *name, int dflt )
+/**********************************************/
+{
+    const char *p = getenv( "UASM_SIM" );
+    size_t n = strlen( name );
+
+    for ( ; p && *p; p = strchr( p, ',' ), p = p ? p + 1 : p )
+        if ( strncmp( p, name, n ) == 0 && p[n] == '=' )
+            return( atoi( p + n + 1 ) );
+    return( dflt );
+}
+#endif
+#endif
diff --git a/assemble.c b/assemble.c
index 28f8ec4..c233179 100644
--- a/assemble.c
+++ b/assemble.c
@@ -43,6 +43,7 @@
 #include "lqueue.h"
 #include "orgfixup.h"
 #include "macrolib.h"
+#include "simhook.h"
 //#include "simd.h"
 
 #if DLLIMPORT
@@ -1680,6 +1681,10 @@ int EXPQUAL AssembleModule( const char *source )
                       seg->e.seginfo->bytes_written ));
         }
 
+#ifdef UASM_SIM
+        if ( Parse_Pass > PASS_1 && Parse_Pass <= SimHook( "extra", 0 ) )
+            prev_written = -1; /* one more pass */
+#endif
         /* if there's no phase error and size of segments didn't change, we're done */
         DebugMsg(("AssembleModule(%u): PhaseError=%u, prev_written=%" I32_SPEC "X, curr_written=%" I32_SPEC "X\n", Parse_Pass + 1, ModuleInfo.PhaseError, prev_written, curr_written));
         if( !ModuleInfo.PhaseError && prev_written == curr_written )
diff --git a/memalloc.c b/memalloc.c
index 5ac42e3..4e5ca31 100644
--- a/memalloc.c
+++ b/memalloc.c
@@ -14,6 +14,7 @@
 
 #include "globals.h"
 #include "memalloc.h"
+#include "simhook.h"
 
 /* what items are stored in the heap?
  * - symbols + symbol names ( asym, dsym; symbol.c )
@@ -60,7 +61,11 @@
  * loop macro lines go to the "fastmem" heap.
  */
 
+#ifdef UASM_SIM
+ #define BLKSIZE ((size_t)SimHook( "blk", 0x80000 )) /* size of the blocks */
+#else
 #define BLKSIZE 0x80000
+#endif
 
 #ifndef __UNIX__
   #if defined(__OS2__)
diff --git a/symbols.c b/symbols.c
index 93f071e..7831c6d 100644
--- a/symbols.c
+++ b/symbols.c
@@ -42,6 +42,7 @@
 #include "types.h"
 #include "proc.h"
 #include "input.h"
+#include "simhook.h"
 
 #if defined(__WATCOMC__) && !defined(__FLAT__)
 #define HASH_MAGNITUDE 12  /* for 16bit model */
@@ -162,6 +163,14 @@ static unsigned int hashpjw( const char *s )
 		h ^= (*s | ' ');
 		h *= fnv_prime;
 	}
+#ifdef UASM_SIM
+	{
+		static int mask = -2; /* fewer bits: more collisions */
+		if (mask == -2)
+			mask = SimHook("hmask", -1);
+		h &= mask | (uint_64)mask << 16;
+	}
+#endif
 	return((((h >> 16) ^ h) & 0xffff));
 }
 
@@ -701,6 +710,9 @@ void SymInit( void )
     CurrProc = NULL;
 
     memset( gsym_table, 0, sizeof(gsym_table) );
+#ifdef UASM_SIM
+    if ( SymCmpFunc == NULL ) SymSetCmpFunc(); /* predefined names may collide */
+#endif
 
     time_of_day = time( NULL );
     now = localtime( &time_of_day );
-- 
2.43.0


From f13c6afd8c7dcaa75054b72a45e69fb4bfd117fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 24/43] fix: a forward referenced equate whose value changes
 requires another pass (C10)

---
 equate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/equate.c b/equate.c
index 16b0bb0..42e52cd 100644
--- a/equate.c
+++ b/equate.c
@@ -63,6 +63,10 @@ static void SetValue( struct asym *sym, struct expr *opndx )
     if ( opndx->kind == EXPR_CONST ) {
         /* v2.07: use expression's memtype */
         //sym->mem_type = MT_ABS;
+        /* a forward referenced constant has been used with its value of the previous pass */
+        if ( Parse_Pass != PASS_1 && sym->fwdref && sym->variable == FALSE &&
+            ( sym->uvalue != opndx->uvalue || sym->value3264 != opndx->hvalue ) )
+            ModuleInfo.PhaseError = TRUE;
         sym->mem_type = opndx->mem_type;
         sym->uvalue = opndx->uvalue;
         sym->value3264 = opndx->hvalue;
-- 
2.43.0


From 06f3dbe53868d8f1506012c76ea9c0a580d121ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 25/43] fix: INCBIN data larger than the OMF code buffer
 doesn't overrun it (C18)

---
 assemble.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/assemble.c b/assemble.c
index c233179..5169c2b 100644
--- a/assemble.c
+++ b/assemble.c
@@ -277,6 +277,12 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
 	int i;
 
+	/* OMF: the code buffer holds just one LEDATA record */
+	if (Options.output_format == OFORMAT_OMF) {
+		for (; len; len--)
+			OutputByte(*(pBytes++));
+		return;
+	}
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 #ifdef DEBUG_OUT
@@ -285,10 +291,6 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 		}
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && idx >= MAX_LEDATA_THRESHOLD) {
-			omf_FlushCurrSeg();
-			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
-		}
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
 		for (i = 0; i < len; i++)
 		{
-- 
2.43.0


From 63647553457f8e0cc3cd2f99a7ca075e86a0d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 26/43] fix: a segment that grows from one pass to the next
 doesn't overrun the code buffer (C18)

---
 H/segment.h |  1 +
 assemble.c  | 19 +++++++++----------
 listing.c   |  3 ++-
 segment.c   | 40 +++++++++++++++++++++++++++++++++-------
 4 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/H/segment.h b/H/segment.h
index bc7071f..58868ec 100644
--- a/H/segment.h
+++ b/H/segment.h
@@ -42,6 +42,7 @@ extern ret_code         SetCurrOffset( struct dsym *, uint_32, bool, bool );
 extern struct asym      *CreateIntSegment( const char *, const char *, uint_8, uint_8, bool );
 /* get symbol's segment index, from the symbol itself */
 extern unsigned         GetSegIdx( const struct asym * );
+extern bool             SegmentRoom( struct dsym *, uint_32, uint_32 ); /* room in the code buffer? */
 extern void             SegmentInit( int );     /* init segments */
 extern void             SegmentFini( void );    /* exit segments */
 extern struct asym      *GetGroup( const struct asym * );
diff --git a/assemble.c b/assemble.c
index 5169c2b..797e1a3 100644
--- a/assemble.c
+++ b/assemble.c
@@ -254,7 +254,8 @@ void OutputByte( unsigned char byte )
             idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
         }
         //DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
-        CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
+        if ( SegmentRoom( CurrSeg, idx, 1 ) )
+            CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
     }
 #if 1
     /* check this in pass 1 only */
@@ -275,8 +276,6 @@ void OutputByte( unsigned char byte )
 /* Added 2.14: to accelerate bulk writing of incbin data */
 void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
-	int i;
-
 	/* OMF: the code buffer holds just one LEDATA record */
 	if (Options.output_format == OFORMAT_OMF) {
 		for (; len; len--)
@@ -292,10 +291,8 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
-		for (i = 0; i < len; i++)
-		{
-			CurrSeg->e.seginfo->CodeBuffer[idx++] = *(pBytes++);
-		}
+		if (SegmentRoom(CurrSeg, idx, len))
+			memcpy(&CurrSeg->e.seginfo->CodeBuffer[idx], pBytes, len);
 
 	}
 #if 1
@@ -350,7 +347,8 @@ void OutputSegmentBytes(struct dsym* segg, const unsigned char *pbytes, int len,
 		if (fixup)
 			store_fixup(fixup, segg, (int_32 *)pbytes);
 		//DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-		memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
+		if (SegmentRoom(segg, idx, len))
+			memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
 	}
 #if 1
 	/* check this in pass 1 only */
@@ -389,7 +387,8 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
         if ( fixup )
             store_fixup( fixup, CurrSeg, (int_32 *)pbytes );
         //DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-        memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
+        if ( SegmentRoom( CurrSeg, idx, len ) )
+            memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
     }
 #if 1
     /* check this in pass 1 only */
@@ -427,7 +426,7 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 		if (fixup)
 			store_fixup(fixup, CurrSeg, (int_32 *)pbytes);
 		pOut = &CurrSeg->e.seginfo->CodeBuffer[idx];
-		for (i = 0; i < len*2; i++)
+		for (i = 0; i < len*2 && SegmentRoom(CurrSeg, idx + i, 1); i++)
 		{
 			if (i % 2 == 1)
 				*pOut++ = 0;
diff --git a/listing.c b/listing.c
index 0a990d9..75514a7 100644
--- a/listing.c
+++ b/listing.c
@@ -223,7 +223,8 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         p2 = ll.buffer + OFSSIZE + 2;
 
         if ( CurrSeg->e.seginfo->CodeBuffer == NULL ||
-            CurrSeg->e.seginfo->written == FALSE ) {
+            CurrSeg->e.seginfo->written == FALSE ||
+            SegmentRoom( CurrSeg, CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc, 0 ) == FALSE ) {
             while ( oldofs < newofs && len ) {
                 *p2++ = '0';
                 *p2++ = '0';
diff --git a/segment.c b/segment.c
index a64dd9a..e2b3662 100644
--- a/segment.c
+++ b/segment.c
@@ -95,6 +95,7 @@ static int              saved_stkindex;
 /* generic byte buffer, used for OMF LEDATA records only */
 static uint_8           codebuf[ 1024 ];
 static uint_32          buffer_size; /* total size of code buffer */
+static uint_8           *buffer;     /* start of code buffer */
 
 /* min cpu for USE16, USE32 and USE64 */
 static const uint_16 min_cpu[] = { P_86, P_386, P_64 };
@@ -1162,12 +1163,30 @@ void SegmentFini( void )
     FreeLnameQueue();
 }
 
-/* init. called for each pass */
+/* is there room for <len> bytes at offset <idx> of a segment's buffer?
+ * if not, the segment has grown since the previous pass: its contents
+ * will be stored in the next one.
+ */
+bool SegmentRoom( struct dsym *seg, uint_32 idx, uint_32 len )
+/************************************************************/
+{
+    uint_8 *p = seg->e.seginfo->CodeBuffer;
+
+    if ( Options.output_format == OFORMAT_OMF || seg->e.seginfo->internal || (int_32)idx < 0 )
+        return( TRUE );
+    if ( p && p - buffer + (uint_64)idx + len <= buffer_size )
+        return( TRUE );
+    if ( len )
+        ModuleInfo.PhaseError = TRUE;
+    return( FALSE );
+}
+
 void SegmentInit( int pass )
 /**************************/
 {
     struct dsym *curr;
     uint_32     i;
+    uint_32     size;
     char        *p;
     CurrSeg      = NULL;
     stkindex     = 0;
@@ -1183,8 +1202,9 @@ void SegmentInit( int pass )
     /*
      * alloc a buffer for the contents
      */
-    if ( ModuleInfo.pCodeBuff == NULL && Options.output_format != OFORMAT_OMF ) {
-        for( curr = SymTables[TAB_SEG].head, buffer_size = 0; curr; curr = curr->next ) {
+    if ( Options.output_format != OFORMAT_OMF ) {
+        uint_32 slack = 0;
+        for( curr = SymTables[TAB_SEG].head, size = 0; curr; curr = curr->next ) {
             if ( curr->e.seginfo->internal )
                 continue;
             if ( curr->e.seginfo->bytes_written ) {
@@ -1195,12 +1215,17 @@ void SegmentInit( int pass )
                  * code segment contained labels, but this isn't sufficient.)
                  */
                 if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
-                    i = i + (i >> 2);
-                buffer_size += i;
+                    slack += i >> 2;
+                size += i;
             }
         }
-        if ( buffer_size ) {
+        /* if the segments have grown beyond that, get a new buffer */
+        if ( size && ( ModuleInfo.pCodeBuff == NULL || size > buffer_size ) ) {
+            if ( ModuleInfo.pCodeBuff )
+                LclFree( ModuleInfo.pCodeBuff );
+            buffer_size = size + slack;
             ModuleInfo.pCodeBuff = LclAlloc( buffer_size );
+            buffer = ModuleInfo.pCodeBuff;
         }
     }
     /* Reset length of all segments to zero.
@@ -1218,7 +1243,8 @@ void SegmentInit( int pass )
                 i = curr->sym.max_offset - curr->e.seginfo->start_loc;
                 p += i;
             }
-        }
+        } else if ( Options.output_format != OFORMAT_OMF )
+            curr->e.seginfo->CodeBuffer = NULL; /* no room yet */
         if( curr->e.seginfo->combine != COMB_STACK ) {
             curr->sym.max_offset = 0;
         }
-- 
2.43.0


From de558103ac01732e7fc4ccd83bb45c6d46c9650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 27/43] fix: a PE source without END is an error instead of a
 crash (C15)

---
 assemble.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assemble.c b/assemble.c
index 797e1a3..de2c770 100644
--- a/assemble.c
+++ b/assemble.c
@@ -912,8 +912,8 @@ static void PassOneChecks( void )
     HllCheckOpen();
     CondCheckOpen();
 
-	/* Don't require END directive for bin output */
-    if( ModuleInfo.EndDirFound == FALSE  && Options.output_format != OFORMAT_BIN)
+	/* Don't require END directive for bin output (but the PE headers are created there) */
+    if( ModuleInfo.EndDirFound == FALSE && ( Options.output_format != OFORMAT_BIN || ModuleInfo.sub_format == SFORMAT_PE ) )
         EmitError( END_DIRECTIVE_REQUIRED );
 
     /* v2.04: check the publics queue.
-- 
2.43.0


From e94c49457041551018cf1b6e490df476dbbb3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 28/43] fix: lines of macros keep the file that invokes them in
 later passes (C19: INCBIN in a macro finds the same file in every pass)

---
 H/fastpass.h | 1 +
 assemble.c   | 2 +-
 fastpass.c   | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/H/fastpass.h b/H/fastpass.h
index 330e955..bd42f54 100644
--- a/H/fastpass.h
+++ b/H/fastpass.h
@@ -31,6 +31,7 @@ struct line_item {
     struct line_item *next;
     uint_32 lineno:20, srcfile:12;
     uint_32 list_pos; /* position .LST file */
+    uint_16 curfile;  /* the file being read, for macro lines too */
     char line[1];
 };
 
diff --git a/assemble.c b/assemble.c
index de2c770..467e17b 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1199,7 +1199,7 @@ static int OnePass( void )
 #if USELSLINE==0
             strcpy( CurrSource, LineStoreCurr->line );
 #endif
-            set_curr_srcfile( LineStoreCurr->srcfile, LineStoreCurr->lineno );
+            set_curr_srcfile( LineStoreCurr->curfile, LineStoreCurr->lineno );
             /* v2.06: list flags now initialized on the top level */
             ModuleInfo.line_flags = 0;
             MacroLevel = ( LineStoreCurr->srcfile == 0xFFF ? 1 : 0 );
diff --git a/fastpass.c b/fastpass.c
index 3a8a050..7ab19a8 100644
--- a/fastpass.c
+++ b/fastpass.c
@@ -89,6 +89,7 @@ void StoreLine( const char *srcline, int flags, uint_32 lst_position )
     } else {
         LineStoreCurr->srcfile = get_curr_srcfile();
     }
+    LineStoreCurr->curfile = get_curr_srcfile();
     LineStoreCurr->list_pos = ( lst_position ? lst_position : list_pos );
     if ( j ) {
         memcpy( LineStoreCurr->line, srcline, i );
-- 
2.43.0


From 0099ead5a345046ec7b09f54a79df51cb5227f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 29/43] fix: OPTION LANGUAGE doesn't write to the freed
 @Interface of the previous module (C08)

---
 assemble.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 467e17b..ef0d5bd 100644
--- a/assemble.c
+++ b/assemble.c
@@ -88,6 +88,7 @@ jmp_buf jmpenv;
 #define EXE_EXT "EXE"
 extern int_32           LastCodeBufSize;
 extern char             *DefaultDir[NUM_FILE_TYPES];
+extern struct asym      *sym_Interface;
 extern const char       *ModelToken[];
 #if FASTMEM==0
 extern void             FreeLibQueue();
@@ -1538,7 +1539,8 @@ static void AssembleInit( const char *source )
 #endif
     ReswTableInit();
     SymInit();
-    sym_ReservedStack = NULL; /* a symbol of the previous module is gone */
+    sym_ReservedStack = NULL; /* symbols of the previous module are gone */
+    sym_Interface = NULL;
     evex = FALSE;             /* OPTION EVEX is for one module only */
     InputInit();
     ModuleInit();
-- 
2.43.0


From 5c0179776a007995f3f5438bf2574d6b3bacc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 30/43] fix: EVEX decorators aren't ignored after a module that
 ended inside a macro (C08)

---
 assemble.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assemble.c b/assemble.c
index ef0d5bd..1884dc0 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1542,6 +1542,7 @@ static void AssembleInit( const char *source )
     sym_ReservedStack = NULL; /* symbols of the previous module are gone */
     sym_Interface = NULL;
     evex = FALSE;             /* OPTION EVEX is for one module only */
+    inMacroBody = FALSE;      /* the previous module may have ended inside a macro */
     InputInit();
     ModuleInit();
     CondInit();
-- 
2.43.0


From 90f119a6e9942536fa4e14db1b1c206f92e42662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 31/43] fix: the symbol dump contains no address of an ALIAS's
 target (C06, C08)

---
 symbols.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbols.c b/symbols.c
index 7831c6d..57b30db 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1055,7 +1055,9 @@ void WriteSymbols()
 				fwrite("P", 1, 1, ld);
 			else
 				fwrite("L", 1, 1, ld);
-			fwrite(&(sym->offset), 4, 1, ld);
+			/* the field holds a pointer if the symbol is an alias */
+			size = (sym->state == SYM_ALIAS) ? 0 : sym->offset;
+			fwrite(&size, 4, 1, ld);
 			/* the field holds a pointer if the symbol is an external */
 			size = (sym->state == SYM_EXTERNAL && !sym->iscomm) ? 0 : sym->total_size;
 			fwrite(&size, 4, 1, ld);
-- 
2.43.0


From d5d29efad48678c8c107ff606d187cffc89b3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 32/43] fix: .CASE in another HLL block is an error in the
 first pass too, it wrote past that block (C10)

---
 hll.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hll.c b/hll.c
index 4cba19d..189f98d 100644
--- a/hll.c
+++ b/hll.c
@@ -2901,7 +2901,6 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     i++;
     break;
   case T_DOT_CASE:
-    if (Parse_Pass)
     if (hll->cmd != HLL_SWITCH) {
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
-- 
2.43.0


From 7debd6eb484f3dd229b661d530ea01c38417b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 33/43] fix: the tables of a .SWITCH block are released once,
 also if the block stays open or has no .CASE (C06, C14)

---
 H/hll.h    |  2 --
 assemble.c |  2 +-
 hll.c      | 43 ++++++++++++++++++++++++++++++++-----------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/H/hll.h b/H/hll.h
index 97140e6..d3c4eab 100644
--- a/H/hll.h
+++ b/H/hll.h
@@ -9,9 +9,7 @@
 #define _HLL_H_
 
 extern void HllInit( int );    /* reset counter for hll labels */
-#if FASTMEM==0
 extern void HllFini( void );
-#endif
 extern void HllCheckOpen( void );
 
 extern uint_32 GetHllLabel(void);
diff --git a/assemble.c b/assemble.c
index 1884dc0..832b48a 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1573,8 +1573,8 @@ static void AssembleFini( void )
 #if FASTMEM==0
     FreeLibQueue();
     ContextFini();
-    HllFini();
 #endif
+    HllFini();
     InputFini();
     close_files();
 
diff --git a/hll.c b/hll.c
index 189f98d..6aa082a 100644
--- a/hll.c
+++ b/hll.c
@@ -1460,6 +1460,22 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
   return(NOT_ERROR);
 }
 
+/* release the tables of a .SWITCH block */
+
+static void FreeCases(struct hll_item *hll)
+/*****************************************/
+{
+  free(hll->pcases);
+  hll->pcases = NULL;
+#if AMD64_SUPPORT
+  free(hll->pcases64);
+  hll->pcases64 = NULL;
+#endif
+  free(hll->plabels);
+  hll->plabels = NULL;
+  hll->maxalloccasen = 0;
+}
+
 /* .IF, .WHILE, .REPEAT or .FOR directive */
 
 ret_code HllStartDir(int i, struct asm_tok tokenarray[])
@@ -1483,6 +1499,11 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   }
   else {
     hll = LclAlloc(sizeof(struct hll_item));
+    hll->pcases = NULL;
+    hll->plabels = NULL;
+#if AMD64_SUPPORT
+    hll->pcases64 = NULL;
+#endif
     DebugCmd(cntAlloc++);
   }
 
@@ -1548,8 +1569,9 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->labels[LDATA2] = GetHllLabel();   /* used by .ENDSWITCH */
     hll->labels[LTOP] = GetHllLabel();   /* used by .ENDSWITCH */
     hll->labels[LCONT] = GetHllLabel();   /* used by .ENDSWITCH */
-    hll->maxalloccasen = 0;
+    FreeCases(hll); /* tables of a .SWITCH that was closed by another directive */
     hll->casecnt = 0;
+    hll->cflag = 0;
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
 
@@ -2727,14 +2749,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #endif
       }
     }
-    if (hll->csize == 4) {
-      free(hll->pcases);
-    }
-#if AMD64_SUPPORT
-    else if (ModuleInfo.Ofssize == USE64) 
-      free(hll->pcases64);
-#endif
-    free(hll->plabels);
+    FreeCases(hll);
     break;
     /* end SWITCH */
   case T_DOT_ENDF:
@@ -3149,7 +3164,6 @@ void HllCheckOpen(void)
   DebugMsg(("HllCheckOpen: allocated items:%u, reused items:%u, .while cond-blocks/bytes:%u/%u\n", cntAlloc, cntReused, cntCond, cntCondBytes));
 }
 
-#if FASTMEM==0
 void HllFini(void)
 /******************/
 {
@@ -3160,10 +3174,17 @@ void HllFini(void)
   */
   for (curr = HllFree; curr; curr = next) {
     next = curr->next;
+    FreeCases(curr);
     LclFree(curr);
   }
+  HllFree = NULL;
+  for (curr = HllStack; curr; curr = next) {
+    next = curr->next;
+    FreeCases(curr);
+    LclFree(curr);
+  }
+  HllStack = NULL;
 }
-#endif
 
 /* HllInit() is called for each pass */
 
-- 
2.43.0


From 8a406ee96856530dab703008a77de21d3b2b6b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 34/43] fix: the lines of the queues being run are released
 after a fatal error (C14)

---
 lqueue.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lqueue.c b/lqueue.c
index d8f52f6..a94c776 100644
--- a/lqueue.c
+++ b/lqueue.c
@@ -38,18 +38,25 @@ static unsigned lqlines_read;    /* lq lines read by RunLineQueue() */
 unsigned GetLqLine( void ) { return( lqlines_read ); }
 #endif
 
-/* free items of current line queue */
+static struct lq_line *pending; /* lines of the queues that are being run */
+
+/* free items of current line queue, and what a fatal error left of the queues that were run */
 
 void DeleteLineQueue( void )
 /**************************/
 {
-    struct qitem *curr;
-    struct qitem *next;
+    struct lq_line *curr;
+    struct lq_line *next;
     for( curr = line_queue.head; curr; curr = next ) {
         next = curr->next;
         MemFree( curr );
     }
     line_queue.head = NULL;
+    for( curr = pending; curr; curr = next ) {
+        next = curr->next;
+        MemFree( curr );
+    }
+    pending = NULL;
 }
 
 
@@ -247,7 +254,8 @@ void RunLineQueue( void )
 {
     struct input_status oldstat;
     struct asm_tok *tokenarray;
-    struct lq_line *currline = line_queue.head;
+    struct lq_line *currline;
+    struct lq_line *outer = pending; /* lines of the queue this one is nested in */
 
     /* v2.03: ensure the current source buffer is still aligned */
     tokenarray = PushInputStatus( &oldstat );
@@ -256,18 +264,22 @@ void RunLineQueue( void )
     /* v2.11: line queues are no longer pushed onto the file stack.
      * Instead, the queue is processed directly here.
      */
-    line_queue.head = NULL;
+    if ( line_queue.head ) {
+        ((struct lq_line *)line_queue.tail)->next = outer;
+        pending = line_queue.head;
+        line_queue.head = NULL;
+    }
     DebugCmd( lqlines_written = 0 ); /* reset counter for AddLineQueue() */
     DebugCmd( lqlines_read = 0 ); /* reset counter for line-queue reads below */
 
-    for ( ; currline; ) {
-        struct lq_line *nextline = currline->next;
+    while ( pending != outer ) {
+        currline = pending;
+        pending = currline->next;
         strcpy( CurrSource, currline->line );
         DebugCmd ( lqlines_read++ );
         MemFree( currline );
         if ( PreprocessLine( CurrSource, tokenarray ) )
             ParseLine( tokenarray );
-        currline = nextline;
     }
 
     ModuleInfo.GeneratedCode--;
-- 
2.43.0


From 2026841ef20fcbf2912c52ba8df7997eab330d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 35/43] fix: no source file stays open when memory runs out
 before its checksum is made (C14)

---
 dbgcv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dbgcv.c b/dbgcv.c
index f64eb76..fe74e08 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1262,9 +1262,11 @@ static int calc_md5(const char* filename, unsigned char* sum)
 	_picohash_md5_ctx_t ctx;
 	size_t i;
 
-	if ((fp = fopen(filename, "rb")) == NULL)
-		return 0;
 	file_buf = MemAlloc(BUFSIZ);
+	if ((fp = fopen(filename, "rb")) == NULL) {
+		MemFree(file_buf);
+		return 0;
+	}
 	_picohash_md5_init(&ctx);
 	while (!feof(fp)) {
 		i = fread(file_buf, 1, BUFSIZ, fp);
-- 
2.43.0


From 388642efc1a1ebb5814c081186ca2957e5b5303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 36/43] fix: the buffer of an empty response file is released
 (C14)

---
 cmdline.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmdline.c b/cmdline.c
index 902a2d5..275f132 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -853,8 +853,10 @@ static char *ReadParamFile( const char *name )
     }
     env[len] = NULLC;
     fclose( file );
-    if ( len == 0)
+    if ( len == 0) {
+        MemFree( env );
         return( NULL );
+    }
     /* zip through characters changing \r, \n etc into ' ' */
     str = env;
     while( *str ) {
-- 
2.43.0


From 1579e3ca69f1ba49a4ef73d8fcf7159377e67c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 37/43] fix: a wildcard search is closed before a failure of it
 is reported, which may be fatal (C14)

---
 main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 1f3c98f..158f0b4 100644
--- a/main.c
+++ b/main.c
@@ -76,6 +76,7 @@ int main(int argc, char **argv)
 	size_t    fh;
 	const char *pfn;
 	int     dirsize;
+	int     err;
 	struct  _finddata_t finfo;
 	char    fname[FILENAME_MAX];
 #endif
@@ -139,11 +140,13 @@ int main(int argc, char **argv)
 					failed = 1;
 				errno = ENOENT;
 			} while ((_findnext(fh, &finfo) != -1));
-			if (errno != ENOENT) { /* ENOENT: no more files */
+			err = errno;
+		    _findclose(fh); /* before EmitErr(), which is fatal if the error limit is reached */
+			if (err != ENOENT) { /* ENOENT: no more files */
+				errno = err;
 				EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
 				failed = 1;
 			}
-		    _findclose(fh);
 #else
 		rc = AssembleModule( Options.names[ASM] );
 		if (rc == 0)
-- 
2.43.0


From 6af6e97303ec62d1673353742f76f977ff29b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 38/43] fix: the listing of a failing OMF module doesn't show
 memory behind the code buffer (C06)

---
 segment.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.c b/segment.c
index e2b3662..f0bfe6d 100644
--- a/segment.c
+++ b/segment.c
@@ -1172,8 +1172,11 @@ bool SegmentRoom( struct dsym *seg, uint_32 idx, uint_32 len )
 {
     uint_8 *p = seg->e.seginfo->CodeBuffer;
 
-    if ( Options.output_format == OFORMAT_OMF || seg->e.seginfo->internal || (int_32)idx < 0 )
+    if ( seg->e.seginfo->internal || (int_32)idx < 0 )
         return( TRUE );
+    /* OMF: the buffer is flushed when it's full, unless there was an error */
+    if ( Options.output_format == OFORMAT_OMF )
+        return( len || idx <= sizeof( codebuf ) );
     if ( p && p - buffer + (uint_64)idx + len <= buffer_size )
         return( TRUE );
     if ( len )
-- 
2.43.0


From 082c17cf5e6deeab67cd4972f90a2d7ed490c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 39/43] fix: renaming a keyword that has been renamed before
 doesn't loop forever if it isn't the first one (C15)

---
 reswords.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reswords.c b/reswords.c
index 7048998..caff87a 100644
--- a/reswords.c
+++ b/reswords.c
@@ -1094,7 +1094,7 @@ void RenameKeyword(unsigned token, const char *newname, uint_8 length)
 #if 1
     /* v2.11: search the original name. if the "new" names matches
     * the original name, restore the name pointer */
-    for (curr = renamed_keys.head, prev = NULL; curr; prev = curr) {
+    for (curr = renamed_keys.head, prev = NULL; curr; prev = curr, curr = curr->next) {
       if (curr->token == token) {
         if (curr->length == length && !memcmp(newname, curr->name, length)) {
           if (prev)
-- 
2.43.0


From e768be1e22608ddb89fa466a4f12f092c22d328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 40/43] fix: keywords disabled or renamed by a module that ends
 in 64-bit mode, or both, are restored properly (C08)

---
 reswords.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/reswords.c b/reswords.c
index caff87a..3d49541 100644
--- a/reswords.c
+++ b/reswords.c
@@ -1293,8 +1293,21 @@ void ResWordsFini(void)
 #endif
 
   DebugMsg(("ResWordsFini() enter\n"));
+
+  /* reenter disabled keywords */
+  for (i = Removed.Head; i != 0; i = next) {
+    next = ResWordTable[i].next;
+    ResWordTable[i].flags &= ~RWF_DISABLED;
+#if AMD64_SUPPORT /* don't add the words that are specific to the other mode */
+    if (!(ResWordTable[i].flags & (b64bit ? RWF_IA32 : RWF_X64)))
+#endif
+      AddResWord(i);
+    DebugMsg(("ResWordsInit(): %s reenabled\n", GetResWName(i, NULL)));
+  }
+  Removed.Head = Removed.Tail = 0;
+
 #if RENAMEKEY
-  /* restore renamed keywords.
+  /* restore renamed keywords ( after the disabled ones, a word may be both ).
   * the keyword has to removed ( and readded ) from the hash table,
   * since its position most likely will change.
   */
@@ -1305,7 +1318,10 @@ void ResWordsFini(void)
     LclFree((void *)ResWordTable[rencurr->token].name);
     ResWordTable[rencurr->token].name = rencurr->name;
     ResWordTable[rencurr->token].len = rencurr->length;
-    AddResWord(rencurr->token);
+#if AMD64_SUPPORT /* see above */
+    if (!(ResWordTable[rencurr->token].flags & (b64bit ? RWF_IA32 : RWF_X64)))
+#endif
+      AddResWord(rencurr->token);
     DebugMsg(("ResWordsFini(): %s restored\n", GetResWName(rencurr->token, NULL)));
     //LclFree( (void *)rencurr->name ); /* v2.06: this was the wrong one */
     LclFree(rencurr);
@@ -1314,18 +1330,6 @@ void ResWordsFini(void)
   renamed_keys.head = NULL;
 #endif
 
-  /* reenter disabled keywords */
-  for (i = Removed.Head; i != 0; i = next) {
-    next = ResWordTable[i].next;
-    ResWordTable[i].flags &= ~RWF_DISABLED;
-#if AMD64_SUPPORT /* don't add the words specific to x64 */
-    if (!(ResWordTable[i].flags & RWF_X64))
-#endif
-      AddResWord(i);
-    DebugMsg(("ResWordsInit(): %s reenabled\n", GetResWName(i, NULL)));
-  }
-  Removed.Head = Removed.Tail = 0;
-
   return;
 }
 
-- 
2.43.0


From 088ead364f02442a314033e58f3e43fce491ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 41/43] fix: SYSCALL disabled or renamed by a module that
 changes the processor mode doesn't break the keyword table (C08, C15)

---
 reswords.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/reswords.c b/reswords.c
index 3d49541..e04a378 100644
--- a/reswords.c
+++ b/reswords.c
@@ -1124,13 +1124,14 @@ void RenameKeyword(unsigned token, const char *newname, uint_8 length)
 
 #if AMD64_SUPPORT
 
+static const char *syscallname;   /* "true" syscall name stored here */
+
 /* depending on 64bit on or off, some instructions must be added,
 * some removed. Currently this is a bit hackish.
 */
 void Set64Bit(bool newmode)
 /***************************/
 {
-  static const char *syscallname;   /* "true" syscall name stored here */
   int token;
   int i;
 
@@ -1144,11 +1145,14 @@ void Set64Bit(bool newmode)
                                              * one cannot just change the name, since the hash value
                                              * will differ!
                                              */
-      RemoveResWord(T_SYSCALL);
-      syscallname = ResWordTable[T_SYSCALL].name; /* save the "true" name */
-      ResWordTable[T_SYSCALL].name = strSyscall_;
-      ResWordTable[T_SYSCALL].len++;
-      AddResWord(T_SYSCALL);
+      /* a renamed SYSCALL keeps its name, a disabled one stays out of the hash table */
+      if (ResWordTable[T_SYSCALL].name == syscallname) {
+        RemoveResWord(T_SYSCALL);
+        ResWordTable[T_SYSCALL].name = strSyscall_;
+        ResWordTable[T_SYSCALL].len++;
+        if (!(ResWordTable[T_SYSCALL].flags & RWF_DISABLED))
+          AddResWord(T_SYSCALL);
+      }
 
       for (i = 0; i < sizeof(patchtab64) / sizeof(patchtab64[0]); i++)
         for (token = patchtab64[i]; ResWordTable[token].flags & RWF_X64; token++)
@@ -1179,10 +1183,13 @@ void Set64Bit(bool newmode)
       }
 
       /* change calling convention syscall_ back to syscall */
-      RemoveResWord(T_SYSCALL);
-      ResWordTable[T_SYSCALL].name = syscallname; /* restore "true" name */
-      ResWordTable[T_SYSCALL].len--;
-      AddResWord(T_SYSCALL);
+      if (ResWordTable[T_SYSCALL].name == strSyscall_) {
+        RemoveResWord(T_SYSCALL);
+        ResWordTable[T_SYSCALL].name = syscallname; /* restore "true" name */
+        ResWordTable[T_SYSCALL].len--;
+        if (!(ResWordTable[T_SYSCALL].flags & RWF_DISABLED))
+          AddResWord(T_SYSCALL);
+      }
     }
     b64bit = newmode;
   }
@@ -1275,6 +1282,9 @@ void ResWordsInit(void)
 #endif
       AddResWord(i);
   }
+#if AMD64_SUPPORT
+  syscallname = ResWordTable[T_SYSCALL].name; /* save the "true" name */
+#endif
   DebugMsg(("ResWordsInit() exit\n"));
   return;
 }
@@ -1330,6 +1340,16 @@ void ResWordsFini(void)
   renamed_keys.head = NULL;
 #endif
 
+#if AMD64_SUPPORT
+  /* the mode may have changed since SYSCALL was renamed */
+  if (ResWordTable[T_SYSCALL].name != (b64bit ? strSyscall_ : syscallname)) {
+    RemoveResWord(T_SYSCALL);
+    ResWordTable[T_SYSCALL].name = (b64bit ? strSyscall_ : syscallname);
+    ResWordTable[T_SYSCALL].len = (b64bit ? 8 : 7);
+    AddResWord(T_SYSCALL);
+  }
+#endif
+
   return;
 }
 
-- 
2.43.0


From e3cc7df156184004e5d8aba25df178bca121c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 42/43] fix: a long directory and a long name in INCLUDE
 overflowed the buffer for the path (C19)

---
 input.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/input.c b/input.c
index e268028..903a713 100644
--- a/input.c
+++ b/input.c
@@ -553,7 +553,7 @@ static FILE *open_file_in_include_path( const char *name, char fullpath[] )
          * - "empty" entries in PATH
          * - entries which would cause a buffer overflow
          */
-        if ( i == 0 || ( ( i + namelen ) >= FILENAME_MAX ) )
+        if ( i == 0 || ( ( i + 1 + namelen ) >= FILENAME_MAX ) )
             continue;
 
         memcpy( fullpath, curr, i );
@@ -615,10 +615,9 @@ FILE *SearchFile( const char *path, bool queue )
                 //DebugMsg1(("SearchFile(): curr src=%s, split into drive=%s, dir=%s\n", GetFName( fl->srcfile)->fname, drive2, dir2 ));
                 src = GetFName( fl->srcfile )->fname;
                 fn2 = GetFNamePart( src );
-                if ( fn2 != src ) {
+                if ( fn2 != src && ( fn2 - src ) + strlen( path ) < sizeof( fullpath ) ) {
                     int i = fn2 - src;
                     /* v2.10: if there's a directory part, add it to the directory part of the current file.
-                     * fixme: check that both parts won't exceed FILENAME_MAX!
                      * fixme: 'path' is relative, but it may contain a drive letter!
                      */
                     memcpy( fullpath, src, i );
-- 
2.43.0


From ec5e6318a299e13289a2dcea80880a445a418456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 43/43] fix: names too long for a path overflowed buffers
 instead of being reported (C23)

---
 assemble.c |  6 +++---
 cmdline.c  | 17 ++++++++++-------
 errmsg.c   |  6 +++++-
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/assemble.c b/assemble.c
index 832b48a..7d130b2 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1481,7 +1481,7 @@ static void SetFilenames( const char *name )
     int i;
     const char *fn;
     char *ext;
-    char path[ FILENAME_MAX ];
+    char *path;
 
     DebugMsg(("SetFilenames(\"%s\") enter\n", name ));
 
@@ -1492,6 +1492,7 @@ static void SetFilenames( const char *name )
     /* set [OBJ], [ERR], [LST] */
     fn = GetFNamePart( name );
     for ( i = ASM+1; i < NUM_FILE_TYPES; i++ ) {
+        path = LclAlloc( ( Options.names[i] ? strlen( Options.names[i] ) : DefaultDir[i] ? strlen( DefaultDir[i] ) : 0 ) + strlen( fn ) + sizeof( ".obj" ) );
         if( Options.names[i] == NULL ) {
             path[0] = NULLC;
             if ( DefaultDir[i])
@@ -1515,8 +1516,7 @@ static void SetFilenames( const char *name )
             }
         }
         DebugMsg(("SetFilenames: i=%u >%s<\n", i, path ));
-        CurrFName[i] = LclAlloc( strlen( path ) + 1 );
-        strcpy( CurrFName[i], path );
+        CurrFName[i] = path;
     }
     return;
 }
diff --git a/cmdline.c b/cmdline.c
index 275f132..2d0c093 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -295,7 +295,8 @@ static void get_fname( int type, const char *token )
  */
 {
     const char  *pName;
-    char        name [ FILENAME_MAX ];
+    const char  *dir;
+    char        *name;
 
     DebugMsg(("get_fname( type=%u, >%s< ) enter\n", type, token ));
     //_splitpath( token, drive, dir, fname, ext );
@@ -317,12 +318,14 @@ static void get_fname( int type, const char *token )
     }
     /* v2.10: ensure type is < NUM_FILE_TYPES */
     //if ( drive[0] == NULLC && dir[0] == NULLC && type < NUM_FILE_TYPES && DefaultDir[type] ) {
-    name[0] = NULLC;
+    dir = "";
     if ( pName == token && type < NUM_FILE_TYPES && DefaultDir[type] ) {
-        DebugMsg(("get_fname: default drive+dir used: %s\n" ));
+        DebugMsg(("get_fname: default drive+dir used: %s\n", DefaultDir[type] ));
         //_splitpath( DefaultDir[type], drive, dir, NULL, NULL );
-        strcpy( name, DefaultDir[type] );
+        dir = DefaultDir[type];
     }
+    name = MemAlloc( strlen( dir ) + strlen( token ) + 1 );
+    strcpy( name, dir );
     strcat( name, token );
 #if 0 /* v2.12: extension will be set in SetFileNames() */
     if( type && type < NUM_FILE_TYPES ) {
@@ -337,8 +340,7 @@ static void get_fname( int type, const char *token )
     if( Options.names[type] != NULL ) {
         MemFree( Options.names[type] );
     }
-    Options.names[type] = MemAlloc( strlen( name ) + 1 );
-    strcpy( Options.names[type], name );
+    Options.names[type] = name;
 }
 
 static void set_option_n_name( int idx, const char *name )
@@ -1103,7 +1105,8 @@ char * EXPQUAL ParseCmdline( const char **cmdline, int *pCntArgs )
             if ( rspidx ) {
                 cmdsave[rspidx] = GetNameToken( paramfile, str, sizeof( paramfile ) - 1, '@' );
             } else {
-                strcpy( paramfile, str ); /* fixme: no overflow check */
+                strncpy( paramfile, str, sizeof( paramfile ) - 1 );
+                paramfile[ sizeof( paramfile ) - 1 ] = NULLC;
                 cmdsave[rspidx] = str + strlen(str);
             }
 #else
diff --git a/errmsg.c b/errmsg.c
index e28cc0f..f615168 100644
--- a/errmsg.c
+++ b/errmsg.c
@@ -252,7 +252,11 @@ static void PutMsg( FILE *fp, int severity, int msgnum, va_list args )
         }
         if ( type )
             i = sprintf( buffer, "%s A%4u: ", type, severity * 1000 + msgnum );
-        i += vsprintf( buffer+i, pMsg, args );
+        j = vsnprintf( buffer+i, sizeof( buffer ) - i, pMsg, args );
+        if ( j < 0 || j >= (int)sizeof( buffer ) - i ) /* an argument was too long */
+            j = sizeof( buffer ) - i - 1;
+        i += j;
+        buffer[i] = NULLC;
 
 		#ifdef _WIN32
 			if (severity <= 2)
-- 
2.43.0

