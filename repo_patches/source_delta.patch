From 4d08eae4db82d61d2b8c2a0a46d378423fbbe67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 01/15] fix: BCVReferenceToInt radix too small for Psalms, so
 sorting misplaced PSA 101+ and PSA 119:150+

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..60632d7 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -723,13 +723,13 @@ class BibleBooksCodes:
             intC = int( C )
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
+        result = result * 1000 + intC # PSA has 150 chapters
 
         try:
             intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
+        result = result * 1000 + intV # PSA 119 has 176 verses
 
         try:
             intS = {'a':0, 'b':1}[S.lower()] if S else 0
-- 
2.43.0


From 9f705484f4f4898efce4401bf632e5e44370189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 02/15] fix: absolute verse numbers of one organisational
 system were used for every other (shared class-level cache)

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..0c04053 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -538,14 +538,15 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {} # per system: different systems have different versifications
         accumulatedCount = 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -559,8 +560,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +577,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 4e9614a3e3d2baf7804028383ae5c50394b3b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 03/15] fix: adding two InternalBibleEntryLists changed the
 left one

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..e453ba9 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -871,8 +871,7 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        return InternalBibleEntryList( self.data + listToAppend.data )
     # end of InternalBibleEntryList.__add__
 
 
-- 
2.43.0


From b6b5a383e64d292569af898e406850b9cc723efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 04/15] fix: comparing two Bible entries, extras or extras
 lists raised AttributeError (slots have no __dict__)

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index e453ba9..7f80903 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -413,7 +413,7 @@ class InternalBibleExtra:
 
 
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return (self.myType,self.index,self.noteText,self.cleanNoteText) == (other.myType,other.index,other.noteText,other.cleanNoteText)
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -492,7 +492,7 @@ class InternalBibleExtraList:
 
     def __len__( self ): return len( self.data )
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return self.data == other.data
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +645,9 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) \
+            and (self.marker,self.originalMarker,self.adjustedText,self.cleanText,self.extras,self.originalText) \
+             == (other.marker,other.originalMarker,other.adjustedText,other.cleanText,other.extras,other.originalText)
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From a16038a401e66af39880d515072fb155de48c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 05/15] fix: extending a Bible entry or extras list with itself
 never ended

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 7f80903..0eef166 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -549,7 +549,7 @@ class InternalBibleExtraList:
 
     def extend( self, newExtraList ):
         assert isinstance( newExtraList, InternalBibleExtraList )
-        self.data.extend( newExtraList )
+        self.data.extend( newExtraList.data )
     # end of InternalBibleExtraList.extend
 
     def checkForIndex( self, stringIndex ):
@@ -866,7 +866,7 @@ class InternalBibleEntryList:
         Extend the InternalBibleEntryList with the newList given.
         """
         assert isinstance( additionalList, InternalBibleEntryList )
-        self.data.extend( additionalList )
+        self.data.extend( additionalList.data )
     # end of InternalBibleEntryList.extend
     def __add__( self, listToAppend ):
         """
-- 
2.43.0


From 911d313ceeddf6f6d02cb70fe8679a89816f023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 06/15] fix: a reference range over several books dropped
 verses at the start of each middle book

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..a287358 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -918,13 +918,13 @@ class BibleVersificationSystem:
                 for Cint in range( Cfirst, Clast+1 ):
                     Vlast = self.getNumVerses( BBB, str(Cint) )
                     if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
+                        startVint = Vfirst
                         endVint = Vlast
                     else: # It's not the first chapter
                         startVint = 1
                         endVint = Vlast
                     for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
+                        if BBB==BBB1 and Cint==C1int and Vint==V1int: S = S1
                         else: S = ''
                         resultList.append( (BBB, str(Cint), str(Vint), S,) )
                 BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
-- 
2.43.0


From 9164a8ef03b2dfe0c8e1f91908e0fdce64282e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 07/15] fix: two single-verse keys with different verse indexes
 compared equal

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..843b218 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From dda8d2cd7e229e9f68b1c0f103de45f789ff4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 08/15] fix: the number of a verse key like '1a2' raised
 ValueError

---
 BibleOrgSys/Reference/VerseReferences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 843b218..7213295 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -294,7 +294,8 @@ class SimpleVerseKey():
             if self.C and self.C[0].isdigit():
                 digitCount = 0
                 for char in self.C:
-                    if char.isdigit(): digitCount += 1
+                    if not char.isdigit(): break
+                    digitCount += 1
                 return int( self.C[:digitCount] )
             return None
     # end of SimpleVerseKey.getChapterNumberInt
@@ -306,7 +307,8 @@ class SimpleVerseKey():
             if self.V and self.V[0].isdigit():
                 digitCount = 0
                 for char in self.V:
-                    if char.isdigit(): digitCount += 1
+                    if not char.isdigit(): break
+                    digitCount += 1
                 return int( self.V[:digitCount] )
             return None
     # end of SimpleVerseKey.getVerseNumberInt
-- 
2.43.0


From 2e8ee0874acc9cadff6e5d78bcdab70a9d686791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 09/15] fix: the text of verse keys in books P4D, A2Z, A2J and
 H2C could not be parsed

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7213295..db97e52 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -109,7 +109,7 @@ DEBUGGING_THIS_MODULE = False
 #
 #       All metacharacters (which must be escaped to search for literals): . ^ $ * + ? { } [ ] \ | ( )
 #
-BBB_RE = '([A-PR-XZ][A-EG-VX-Z1][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
+BBB_RE = '([A-PR-XZ][A-EG-VX-Z124][A-WYZ1-6])' # Finds BBB codes only (as strict as possible) -- see Apps/TestBooksCodesRE.py
 C_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Chapter numbers 1..199 (doesn't handle chapters -1 or 0)
 V_RE = '([1-9][0-9]?|[1][0-9][0-9])' #  Verse numbers 1..199 (doesn't handle verse 0)
 S_RE = '!([a-d]?)'
-- 
2.43.0


From 90edd85a7c3bdb232842cc6dbf3b2fdd945a4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 10/15] fix: MLWriter wrote its files in the encoding of the
 locale though their header says UTF-8

---
 BibleOrgSys/InputOutput/MLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..4bbfaed 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -362,7 +362,7 @@ class MLWriter:
             with open( self._outputFilePath, 'ab' ) as self.__outputFile: # Append binary bytes
                 self.__outputFile.write( b'\xef\xbb\xbf' )
                 #self.__outputFile.write( decode( codecs.BOM_UTF8 ) )
-        self.__outputFile = open( self._outputFilePath, 'at' ) # Append text mode
+        self.__outputFile = open( self._outputFilePath, 'at', encoding='utf-8' ) # Append text mode
         self._status = 'Open'
         self._currentColumn = 0
         if self._outputType=='XML' and not noAutoXML:
-- 
2.43.0


From f924977a51a53bac3845ed5fb4281f01b2ea4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 11/15] fix: removing an unclosed USFM field with an embedded
 marker inside never ended

---
 BibleOrgSys/Reference/USFM3Markers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..fc549f7 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -126,6 +126,7 @@ def removeUSFMCharacterField( marker, originalText, closedFlag ):
                 logger = logging.critical if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag else logging.error
                 logger( "removeUSFMCharacterField: doesn't handle embedded markers yet with {!r} in {!r}".format( marker, originalText ) )
                 if DEBUGGING_THIS_MODULE and BibleOrgSysGlobals.debugFlag: halt
+                break # otherwise we'd find this same field again forever
             else:
                 text = text[:ix] + text[ixEnd:]
         ix = text.find( f'\\{marker} ' )
-- 
2.43.0


From 4842a3741951a3cc5f000da16b1b5cbfa5ee30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 12/15] fix: removeStringEndings removed the whole text when
 given an empty ending

---
 BibleOrgSys/BibleOrgSysGlobals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..788623a 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1297,7 +1297,7 @@ def removeStringEndings( originalText:str, endingsList:list[str] ) -> str:
     newText = originalText
     for ending in endingsList:
         if newText.endswith( ending ):
-            newText = newText[:-len(ending)]
+            newText = newText[:len(newText)-len(ending)] # (NOT -len, so that an empty ending removes nothing)
     return newText
 # end of BibleOrgSysGlobals.stripWordEndsPunctuation
 
-- 
2.43.0


From e25694724c9084a1b9d035b6e318f693f439245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 13/15] fix: getChapterEntries returned the whole book when
 asked for the introduction

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..231fb59 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -277,6 +277,8 @@ class InternalBibleBookCVIndex:
             nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
             return self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()]
         except KeyError: # presumably no more chapters
+            if C == '-1' and ('1','0') in self.__indexData: # except that mostly there's no chapter zero after the introduction
+                return self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__indexData[('1','0')].getEntryIndex()]
             return self.givenBibleEntries[firstIndexEntry.getEntryIndex():]
     # end of InternalBibleBookCVIndex.getChapterEntries
 
-- 
2.43.0


From dfd911cf1d292430aaed63d3eee148567cc0c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:56 +0000
Subject: [PATCH 14/15] fix: reading a list file raised NameError

---
 BibleOrgSys/InputOutput/ControlFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/ControlFiles.py b/BibleOrgSys/InputOutput/ControlFiles.py
index 6317940..8994070 100755
--- a/BibleOrgSys/InputOutput/ControlFiles.py
+++ b/BibleOrgSys/InputOutput/ControlFiles.py
@@ -58,7 +58,7 @@ def readListFile( folder, filename, outputList, debug=False ):
         if not isinstance( outputList, list): raise ValueError('List expected here')
         oldlen = len( outputList )
 
-    if Controls['VerbosityLevel'] > 1: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '    Loading list file', filename + '…' )
+    if BibleOrgSysGlobals.verbosityLevel > 1: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '    Loading list file', filename + '…' )
     lines = []
     with open( os.path.join( folder, filename ), encoding='utf-8' ) as myFile: # Automatically closes the file when done
         for line in myFile:
-- 
2.43.0


From a35deb6efc6fef4c9dbadad985eca9187069cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:56 +0000
Subject: [PATCH 15/15] fix: removing vowel points or other marks from a Hebrew
 object's own text ignored the option given

---
 BibleOrgSys/OriginalLanguages/Hebrew.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index 7b47d95..ca10034 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -434,7 +434,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeVowelPointing( {!r}, {} )".format( text, removeMetegOrSiluq ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeVowelPointing( self.currentText ) # recursive call
+            self.currentText = self.removeVowelPointing( self.currentText, removeMetegOrSiluq ) # recursive call
             return self.currentText
         # else we were given some text to process
         if removeMetegOrSiluq: text = self._removeMetegOrSiluq( text, asVowel=True )
@@ -451,7 +451,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeOtherMarks( {!r} )".format( text ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeOtherMarks( self.currentText ) # recursive call
+            self.currentText = self.removeOtherMarks( self.currentText, removeSinShinDots ) # recursive call
             return self.currentText
         # else we were given some text to process
         text = self.removeAllMetegOrSiluq( text )
-- 
2.43.0

