From 189a988cee85183ca688d44d026a38bd56e61882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 01/30] fix: converting Baraha to Tamil no longer prints the
 text to stdout

---
 aksharamukha/PreProcess.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 581697b..9bf1cb5 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1340,7 +1340,6 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
 
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
-            print(Strng)
 
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
-- 
2.43.0


From e5d6fff2c1acbe986750c1650bfbddb7be23affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 02/30] fix: match the OM sign of a scheme literally, and also
 between repeated single punctuation

---
 aksharamukha/Convert.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index 9a1cf43..ccf0f9b 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -80,17 +80,17 @@ def convertScript(Strng,Source,Target):
 
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
-        Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-        Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
-        Strng = re.sub('^' + sOm + '$', tOm, Strng)
+        Strng = re.sub(punc + re.escape(sOm) + '(?=' + punc + ')', r'\1' + tOm, Strng)
+        Strng = re.sub('^' + re.escape(sOm) + punc, tOm + r'\1', Strng)
+        Strng = re.sub(punc + re.escape(sOm) + '$', r'\1' + tOm, Strng)
+        Strng = re.sub('^' + re.escape(sOm) + '$', tOm, Strng)
 
         punc = '(\s)'
 
-        Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
-        Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-        Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
-        Strng = re.sub('^' + sOm + '$', tOm, Strng)
+        Strng = re.sub(punc + re.escape(sOm) + '(?=' + punc + ')', r'\1' + tOm, Strng)
+        Strng = re.sub('^' + re.escape(sOm) + punc, tOm + r'\1', Strng)
+        Strng = re.sub(punc + re.escape(sOm) + '$', r'\1' + tOm, Strng)
+        Strng = re.sub('^' + re.escape(sOm) + '$', tOm, Strng)
 
         SourceOld = Source
 
@@ -185,10 +185,10 @@ def convertScript(Strng,Source,Target):
         sOm, tOm = GM.CrunchList('OmMap', Source)[0],GM.CrunchList('OmMap', Target)[0]
 
         if len(sOm) != 1:
-            Strng = re.sub(punc + sOm + punc, r'\1' + tOm + r'\2', Strng)
-            Strng = re.sub('^' + sOm + punc, tOm + r'\1', Strng)
-            Strng = re.sub(punc + sOm + '$', r'\1' + tOm, Strng)
-            Strng = re.sub('^' + sOm + '$', tOm, Strng)
+            Strng = re.sub(punc + re.escape(sOm) + '(?=' + punc + ')', r'\1' + tOm, Strng)
+            Strng = re.sub('^' + re.escape(sOm) + punc, tOm + r'\1', Strng)
+            Strng = re.sub(punc + re.escape(sOm) + '$', r'\1' + tOm, Strng)
+            Strng = re.sub('^' + re.escape(sOm) + '$', tOm, Strng)
 
         if len(sOm) == 1:
             Strng = Strng.replace(sOm, tOm)
-- 
2.43.0


From c20c9137f76c11c9c735b26584350f2c93bc627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 03/30] fix: auto_detect no longer fails on empty,
 unnamed-character or Latin-only (plugin) text

---
 aksharamukha/gimeltra.py      | 2 +-
 aksharamukha/transliterate.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/gimeltra.py b/aksharamukha/gimeltra.py
index a0a66f6..2fb06ff 100644
--- a/aksharamukha/gimeltra.py
+++ b/aksharamukha/gimeltra.py
@@ -30,7 +30,7 @@ class Transliterator(object):
 
     def auto_script(self, text):
         sc_count = Counter([ucd.script(c) for c in text])
-        sc = sc_count.most_common(1)[0][0]
+        sc = sc_count.most_common(1)[0][0] if sc_count else None
         if not sc:
             sc = 'Zyyy'
         return sc
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 400eb15..761a342 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -70,14 +70,14 @@ def auto_detect(text, plugin = False):
     else:
         #print('here')
         if len(script_percent) > 0:
-            if sorted(script_percent)[-1][1] == 'latin':
+            if sorted(script_percent)[-1][1] == 'latin' and len(script_percent) > 1:
                 script = sorted(script_percent)[-2][1]
             else:
                 script = sorted(script_percent)[-1][1]
         else:
             script = ''
 
-    inputScript = script[0].upper() + script[1:]
+    inputScript = script[:1].upper() + script[1:]
 
     laoPali = ['ຆ', 'ຉ', 'ຌ', 'ຎ', 'ຏ', 'ຐ', 'ຑ', 'ຒ', 'ຓ', 'ຘ', 'ຠ', 'ຨ', 'ຩ', 'ຬ', '຺']
 
@@ -104,7 +104,7 @@ def auto_detect(text, plugin = False):
             try:
                 char = unicodedata.name(uchar).lower()
             except:
-                pass
+                continue
             if 'shan' in char:
                 countSub['Shan'] += 1
             elif 'tai laing' in char:
-- 
2.43.0


From bdd76fcdad8e735c075cbf1c59809ce642f8d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 04/30] fix: docx conversion passes pre and post options in the
 right order and accepts empty text runs

---
 aksharamukha/transliterate_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 1e5e978..8b5b856 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -95,13 +95,13 @@ def xml_file_to_convert(data, old_archive, new_archive, item):
     with old_archive.open(item, 'r') as xml_file:
         tree = etree.parse(xml_file)
         for element in tree.getroot().iter():
-            if element.tag == MS_WORD_TEXT_SCHEMA:
+            if element.tag == MS_WORD_TEXT_SCHEMA and element.text:
                 element.text = convert(data['source'],
                                        data['target'],
                                        element.text,
                                        data['nativize'],
-                                       data['post_options'],
-                                       data['pre_options'])
+                                       data['pre_options'],
+                                       data['post_options'])
 
         string = etree.tostring(tree.getroot(),
                                 xml_declaration=True,
-- 
2.43.0


From 517e3bf6719f42c239236be42b98d47d02c3abfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 05/30] fix: html conversion leaves comments, doctype, scripts
 and style sheets alone

---
 aksharamukha/transliterate_file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 8b5b856..ce72fd0 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -4,6 +4,7 @@ import os
 from lxml import etree
 from zipfile import ZipFile
 from bs4 import BeautifulSoup
+from bs4.element import PreformattedString
 import warnings
 
 MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}t"
@@ -43,6 +44,10 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
     soup = BeautifulSoup(html)
 
     for node in soup.findAll(text=True):
+        # comments, the doctype, scripts and style sheets are not text
+        if isinstance(node, PreformattedString) or node.parent.name in ('script', 'style'):
+            continue
+
         new_node = node.replace(node.string, convert(src, tgt, node.string, nativize, pre_options, post_options))
         node.replace_with(new_node)
 
-- 
2.43.0


From aa9def3511c3350455a2591598025e2ef8ba80d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 06/30] fix: autodetect detects the source orthography also
 with script codes, language codes and names

---
 aksharamukha/transliterate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 761a342..a2c97a7 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -701,7 +701,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
 
     if src_tag == 'autodetect':
         src = [(0, auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -826,7 +826,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
     if src_tag == 'autodetect':
         src = [(0,auto_detect(txt))]
-        pre_options = detect_preoptions(txt, src)
+        pre_options = detect_preoptions(txt, src[0][1])
 
     if len(src) > 0:
         src_pop = sorted(src, reverse=True)[0][1]
@@ -851,8 +851,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
 
 def process_lang_name(src_name, tgt_name, txt, nativize, post_options, pre_options):
     if src_name == 'autodetect':
-        src = auto_detect(txt)
-        pre_options = detect_preoptions(txt, src)
+        src = src_name
     else:
         src = str(langcodes.find(src_name))
 
-- 
2.43.0


From 053561c05e3870afab71a9353bd80301e4cec4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 07/30] fix: the numeral and punctuation options still apply to
 Tamil together with RemoveDiacritics

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index a2c97a7..4f0e215 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -516,7 +516,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     if 'RemoveDiacritics' in postoptions:
       if tgt == 'Tamil':
-        postoptions = map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions)
+        postoptions = list(map(lambda x: 'RemoveDiacriticsTamil' if x == 'RemoveDiacritics' else x, postoptions))
 
     for options in postoptions:
       transliteration = getattr(PostProcess, options)(transliteration)
-- 
2.43.0


From 199d03cb8c2cc5164a0c651e32f9b841dda3c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 08/30] fix: order Thai vowel signs alike at the start of the
 text and after a space

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index e6e4b2a..55c7051 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2178,7 +2178,7 @@ def ThaiDigraphConjuncts(Strng,reverse=False):
     #Replace \s with all punctuations
     if not reverse:
         # Comments
-        Strng = re.sub("(?<=\s)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
+        Strng = re.sub("(?<!\S)("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+cons+")"+"("+vir+")"+"(["+EAIO+"])"+"("+yrlvh+")",r"\3\1\2\4",Strng)
         Strng = re.sub("("+sh+")"+"("+vir+")"+"(["+EAIO+"])"+"("+cons+")",r"\3\1\2\4",Strng)
     else:
-- 
2.43.0


From ff9cc857dd1694d0c8002b92ba75ba5330dc8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 09/30] fix: read the extended Arabic-Indic digits of Urdu,
 Shahmukhi and Persian text without nativization

---
 aksharamukha/PreProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 9bf1cb5..eb9176f 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -477,6 +477,11 @@ def AlephMaterLectionis(Strng, target='semitic'):
 def FixSemiticRoman(Strng, Source):
     vir = '\u033D'
 
+    ## Extended Arabic-Indic digits, written in Urdu, Shahmukhi and Persian
+    if 'Arab' in Source:
+        for x, y in zip('۰۱۲۳۴۵۶۷۸۹', '0123456789'):
+            Strng = Strng.replace(x, y)
+
     if "\u05CD" in Strng:
         Strng = PostProcess.AlephMaterLectionis(Strng)
 
-- 
2.43.0


From e0f4e80a51eddd2ecdf5c7e6cd21d9a787d423a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 10/30] fix: the pre-processing options OriyaSubojinedVa,
 removeZW and IPAIndic always raised

---
 aksharamukha/PreProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index eb9176f..f5350bc 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -139,7 +139,7 @@ def BalineseMoveRepha(Strng):
     return BalineseJavaneseMoveRepha(Strng, 'Balinese', 'ᬃ')
 
 def OriyaSubojinedVa(Strng):
-    Strng = re.sub('(??<![ମବ])(୍ବ)', '୍ୱ', Strng)
+    Strng = re.sub('(?<![ମବ])(୍ବ)', '୍ୱ', Strng)
 
     return Strng
 
@@ -1671,7 +1671,7 @@ def normalize(Strng,Source):
 
 # Remove ZWJ/ZWNJ characters
 def removeZW(Strng):
-    Strng = Strng.replace("\u200C").replace("\u200D")
+    Strng = Strng.replace("\u200C", "").replace("\u200D", "")
 
     return Strng
 
@@ -1795,4 +1795,4 @@ def IPAIndic(Strng):
     Strng = Strng.replace("ʊ","u")
     Strng = Strng.replace("ɛ","e")
 
-    return
+    return Strng
-- 
2.43.0


From 76bfb4d8a0ee236637d32d5d7d8ee4ecf038ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 11/30] fix: danda options raised for Semitic and kana scripts

---
 aksharamukha/PostProcess.py   | 2 +-
 aksharamukha/transliterate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 2c0d907..9a9760c 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -33,7 +33,7 @@ def defaultPost(src, tgt, Strng, nativize, preoptions, postoptions):
         Strng = RetainIndicNumerals(Strng,tgt,reverse=True)
     if 'indicNumerals' in postoptions:
         Strng = RetainIndicNumerals(Strng,tgt,reverse=False)
-    if 'romanFullStop' in postoptions:
+    if 'romanFullStop' in postoptions and tgt in GM.IndicScripts + GM.LatinScripts:
         Strng = RetainDandasIndic(Strng, tgt, reverse=True)
 
     #Devanagari Dandas
diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 4f0e215..5782b5b 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -408,7 +408,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if 'indicDandas' in postoptions:
         if src in GeneralMap.pipeScripts and '|' in txt:
             txt = PreProcess.RetainPipeDanda(txt, src)
-        elif GeneralMap.CrunchList('SignMap', src)[1] == '।':
+        elif src in GeneralMap.IndicScripts + GeneralMap.LatinScripts and GeneralMap.CrunchList('SignMap', src)[1] == '।':
             preoptions = preoptions + ['RetainDevangariDanda']
         else:
             if tgt not in GeneralMap.Transliteration:
-- 
2.43.0


From fd34afea3dc284a3dc35ca87fc12c5ebebd874c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 12/30] fix: RomanLoC falls back to ISO for the Batak scripts,
 which have no LoC table, instead of failing

---
 aksharamukha/GeneralMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/GeneralMap.py b/aksharamukha/GeneralMap.py
index bc19824..895405b 100644
--- a/aksharamukha/GeneralMap.py
+++ b/aksharamukha/GeneralMap.py
@@ -215,7 +215,7 @@ romanNumeralScripts = ['Tamil', 'Gurmukhi', 'Malayalam', 'Telugu']
 romanPunctscripts = ['Tamil', 'Kannada', 'Malayalam', 'Telugu', 'Gujarati']
 
 ## List of supported LoC scripts
-LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'BatakKaro', 'BatakManda','BatakPakpak','BatakSima','BatakToba','Gurmukhi', 'Tibetan', 'Limbu']
+LoCScripts = ['Burmese', 'Shan', 'Khmer', 'KhuenTham', 'TaiTham', 'LaoTham', 'LueTham', 'Kannada', 'Tamil', 'Malayalam', 'Sinhala', 'Telugu', 'Kannada', 'Oriya', 'Assamese', 'Bengali', 'Gujarati', 'Devanagari', 'Balinese', 'Javanese', 'Gurmukhi', 'Tibetan', 'Limbu']
 
 #Modified Src Input Map for LoC script
 #speicalpostpre process
-- 
2.43.0


From 1905ac8d0797485e740b78b103d4cfc9899b21be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 13/30] fix: language codes listed after a comma (hin, mr, tam
 ...) are found

---
 aksharamukha/transliterate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 5782b5b..83a8f6b 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -644,7 +644,7 @@ def process_script_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_option
         # get the popuation of each language of the script
         if 'lang' in data_loaded[scrpt].keys():
             lang_tag = data_loaded[scrpt]['lang'].split(',')[0]
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             population = 0
             lang = ''
@@ -741,7 +741,7 @@ def process_lang_tag(src_tag, tgt_tag, txt, nativize, post_options, pre_options)
     # iterate through the yaml file
     for scrpt in data_loaded.keys():
         if 'lang' in data_loaded[scrpt].keys():
-            lang = list(map(lambda x: x.lower(), data_loaded[scrpt]['lang'].split(',')))
+            lang = list(map(lambda x: x.strip().lower(), data_loaded[scrpt]['lang'].split(',')))
         else:
             lang = ''
 
-- 
2.43.0


From 52892752f40d6d1be646770f892b592ef28d8907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:54 +0000
Subject: [PATCH 14/30] fix: auto-detect Gunjala Gondi, Masaram Gondi and
 Hanifi Rohingya by their names

---
 aksharamukha/transliterate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 83a8f6b..b653a9a 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -147,6 +147,12 @@ def auto_detect(text, plugin = False):
         inputScript = 'RussianCyrillic'
     elif inputScript == 'Zanabazar':
         inputScript = 'ZanabazarSquare'
+    elif inputScript == 'Gunjala':
+        inputScript = 'GunjalaGondi'
+    elif inputScript == 'Masaram':
+        inputScript = 'MasaramGondi'
+    elif inputScript == 'Hanifi':
+        inputScript = 'HanifiRohingya'
     elif inputScript == 'Syriac':
         inputScript = 'Syre'
         eastern_dia = 'ܲ ܵ ܝܼ ܘܼ ܸ ܹ ܘܿ'.split(' ')
-- 
2.43.0


From f5644b545e5861302217c9c7e14c888c8e5594fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 15/30] fix: TaiThamMoveNnga returned a constant instead of the
 text

---
 aksharamukha/PostProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PostProcess.py b/aksharamukha/PostProcess.py
index 9a9760c..cf17725 100644
--- a/aksharamukha/PostProcess.py
+++ b/aksharamukha/PostProcess.py
@@ -3467,7 +3467,7 @@ def TaiThamHighNga(Strng):
 def TaiThamMoveNnga(Strng):
     Strng = re.sub('(.)(\u1A58)',r'\2\1',Strng) # Probably its u1A59
 
-    return "Vinodh"
+    return Strng
 
 def UrduRemoveShortVowels(Strng):
     ShortVowels = ['\u0652','\u064E','\u0650','\u064F', '\u0658']
-- 
2.43.0


From 0ededc5f9f6f6de1ad89bb1e7fa22da15a705828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 16/30] fix: the kind of a file is told by its extension, not
 by a name anywhere in its path

---
 aksharamukha/transliterate_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index ce72fd0..3cd8aa2 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -11,11 +11,12 @@ MS_WORD_TEXT_SCHEMA = "{http://schemas.openxmlformats.org/wordprocessingml/2006/
 
 def process(src, tgt, file, nativize=True, pre_options=[], post_options=[], is_api_mode=False):
     if os.path.isfile(file):
-        if '.txt' in file:
+        extension = os.path.splitext(file)[1]
+        if '.txt' in extension:
             convert_txt(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.docx' in file:
+        elif '.docx' in extension:
             convert_docx(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
-        elif '.htm' in file:
+        elif '.htm' in extension:
             convert_html(src, tgt, file, nativize, pre_options, post_options, is_api_mode)
         else:
             warnings.warn('Only .txt, .html, .docx formats are supported for file conversion. Input file not processed.')
-- 
2.43.0


From 90fb4c9d671752c1264c0e9b37739f84b1c4abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 17/30] fix: html conversion kept inserting spaces and line
 breaks into words with inline markup

---
 aksharamukha/transliterate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aksharamukha/transliterate_file.py b/aksharamukha/transliterate_file.py
index 3cd8aa2..526be71 100644
--- a/aksharamukha/transliterate_file.py
+++ b/aksharamukha/transliterate_file.py
@@ -53,13 +53,13 @@ def convert_html(src, tgt, file, nativize=True, pre_options=[], post_options=[],
         node.replace_with(new_node)
 
     if is_api_mode:
-        return soup.prettify()
+        return str(soup)
     else:
         file_parts = os.path.splitext(file)
         new_file = file_parts[0] + '_' + src + tgt + file_parts[1]
 
         with open(new_file, 'w', encoding='utf8') as f:
-            f.write(soup.prettify())
+            f.write(str(soup))
 
         print('The following file has been created: ' + new_file)
 
-- 
2.43.0


From 73344f58047d79ffda5d66e30460cc203203ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 18/30] fix: canonically decomposed letters and two-part vowel
 signs were not read as the composed ones

---
 aksharamukha/PreProcess.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index f5350bc..cd254db 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1510,6 +1510,28 @@ def normalize(Strng,Source):
         for x,y in zip(nuktaDecom,nuktaPrecom):
             Strng = Strng.replace(x,y)
 
+    # Replace the other decomposed letters and vowel signs by the pre-composed ones
+
+    composed = (
+               "\u0929\u0931\u0934" # Devanagari
+               "\u0B48\u0B4B\u0B4C" # Oriya
+               "\u0B94\u0BCA\u0BCB\u0BCC" # Tamil
+               "\u0C48" # Telugu
+               "\u0CCB\u0CC0\u0CC7\u0CC8\u0CCA" # Kannada
+               "\u0D4A\u0D4B\u0D4C" # Malayalam
+               "\u0DDD\u0DDA\u0DDC\u0DDE" # Sinhala
+               "\u1026" # Burmese
+               "\u1B06\u1B08\u1B0A\u1B0C\u1B0E\u1B12\u1B3B\u1B3D\u1B40\u1B41\u1B43" # Balinese
+               "\U0001109A\U0001109C\U000110AB" # Kaithi
+               "\U0001112E\U0001112F" # Chakma
+               "\U000114BB\U000114BC\U000114BE" # Tirhuta
+               "\U000115BA\U000115BB" # Siddham
+               "\U00011938" # Dives Akuru
+    )
+
+    for x in composed:
+        Strng = Strng.replace(unicodedata.normalize('NFD', x), x)
+
     if Source in ['IAST', 'ISO', 'ISOPali', 'Titus', 'IASTPali']:
         Strng = Strng.replace("ü", "uʼ").replace("ǖ", "ūʼ").replace( 'ö', 'aʼ',).replace('ȫ', 'āʼ')
 
-- 
2.43.0


From 1b9125a966090ebbc5958438dff7a84497ff577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 19/30] fix: decomposed n with tilde and n, r, l with macron
 below were read as nasalization and accents

---
 aksharamukha/PreProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index cd254db..32d0020 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1346,6 +1346,11 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
         if Target == 'Tamil':
             Strng = Strng.replace('n', 'nx').replace('~nx', 'n')
 
+    ## Decomposed letters with tilde and macron below must not be read as Anusvara and Anudatta
+    if Source in GM.LatinScripts:
+        for x in "\u00F1\u00D1\u1E49\u1E5F\u1E3B":
+            Strng = Strng.replace(unicodedata.normalize('NFD', x), x)
+
     if 'IAST' in Source:
         Strng = Strng.replace("aï", "a_i")
         Strng = Strng.replace("aü", "a_u")
-- 
2.43.0


From 7827929ec132e52a2e361d934789219483d0491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 20/30] fix: IPA, Cyrillic and Romanized Semitic text was
 misread in the other Unicode normal form

---
 aksharamukha/PreProcess.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 32d0020..21c6452 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1540,6 +1540,15 @@ def normalize(Strng,Source):
     if Source in ['IAST', 'ISO', 'ISOPali', 'Titus', 'IASTPali']:
         Strng = Strng.replace("ü", "uʼ").replace("ǖ", "ūʼ").replace( 'ö', 'aʼ',).replace('ȫ', 'āʼ')
 
+    if Source == 'IPA':
+        # Vowels with tilde and breve are read with the combining signs
+        for x in '\u00E3\u1EBD\u0129\u00F5\u0169\u0103\u0115\u012D\u014F\u016D':
+            Strng = Strng.replace(x, unicodedata.normalize('NFD', x))
+        Strng = Strng.replace('y\u0307', '\u1E8F')
+
+    if Source in ['RussianCyrillic', 'RomanSemitic']:
+        Strng = unicodedata.normalize('NFC', Strng)
+
     if Source in ['IAST', 'ISO', 'ISOPali', 'IASTPali', 'Titus'] or 'RomanLoC' in Source:
         Strng = unicodedata.normalize('NFC', Strng)
         Strng = Strng.replace("ẗ", "ẗ").replace("ÿ", "ÿ").replace("ḧ", "ḧ")
-- 
2.43.0


From cbf0f6617aac9892d4e82be01dce90bd1afea3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 21/30] fix: Romanized Semitic text with decomposed letters
 lost its diacritics

---
 aksharamukha/PreProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 21c6452..b695d46 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1278,6 +1278,11 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source in GM.RomanDiacritic or Source == 'Latn':
         Strng = Strng.lower()
 
+    if Source == 'Latn':
+        Strng = unicodedata.normalize('NFC', Strng)
+        # as these are written in the Semitic tables
+        Strng = Strng.replace('\u1E27', 'h\u0308').replace('\u0101\u032E\u0302', '\u0101\u0302\u032E')
+
     if Source in GM.pipeScripts:
         if '|' in Strng:
             Strng = Strng.replace(".", "●")
-- 
2.43.0


From 9fa238bd67162506156638cb4ed58dd7969e1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 22/30] fix: marks in the canonical order of Unicode were
 misread in Arabic, Syriac, Tibetan and Khom Thai text

---
 aksharamukha/PreProcess.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index b695d46..653eca0 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1294,6 +1294,22 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
             Strng = re.sub("●([rRlLmhtdnTDsyg])", "."+r'\1', Strng)
             Strng = re.sub("●●([lr])", "."+r'\1', Strng)
 
+    ## The canonical order of Unicode is not the order in which these marks are read
+    if 'Arab' in Source or Source in ['Urdu', 'Shahmukhi']:
+        Strng = re.sub('([\u064B-\u0650\u0652]+)(\u0651)', r'\2\1', Strng)
+        Strng = re.sub('([\u064B-\u0652]+)([\u0615\u0653-\u0655])', r'\2\1', Strng)
+        for x in '\u0622\u0623\u0624\u0625\u0626':
+            Strng = Strng.replace(unicodedata.normalize('NFD', x), x)
+
+    if 'Syr' in Source:
+        Strng = re.sub('([\u0651\u0730-\u0740]+)([\u0323\u0330\u0741\u0742]+)', r'\2\1', Strng)
+
+    if Source in ['Tibetan', 'TibetanLoC']:
+        Strng = re.sub('([\u0F71-\u0F7D\u0F80\u0F84]+)(\u0F39)', r'\2\1', Strng)
+
+    if Source == 'KhomThai':
+        Strng = re.sub('(\u0E3A)([\u0E38\u0E39])', r'\2\1', Strng)
+
     if 'Arab' in Source:
         Strng = re.sub('([وي])(?=[\u064E\u0650\u064F\u0651\u064B\u064C\u064D])', '\u02DE' + r'\1', Strng)
         #Strng = re.sub('((\u064E|\u0650|\u0652|\u064F))(\u0651)', r'\2', Strng)
-- 
2.43.0


From e7a07b6600a9c6388125946466675824a28844be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 23/30] fix: text between ## in ITRANS was altered by the
 conversion of the surrounding text

The split happened after spelling variants (aa, x, OM, |, .) and options had
been applied to the whole text, and options ran over the quoted text afterwards.
---
 aksharamukha/transliterate.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index b653a9a..6f4cb3e 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -231,6 +231,13 @@ def detect_preoptions(text, inputScript):
 def convert(src, tgt, txt, nativize, preoptions, postoptions):
     tgtOld = ""
 
+    ## ITRANS: text between ## is left as it is
+    if src == "Itrans" and "##" in txt and tgt not in ["", "Ignore"] and (src != tgt or nativize or preoptions or postoptions):
+        parts = txt.split("##")
+        for i in range(0, len(parts), 2):
+            parts[i] = convert(src, tgt, parts[i], nativize, preoptions, postoptions)
+        return "".join(parts)
+
     ## ALA-LC Romanizations
     ## process as follows, if source is associated with LoC script
     if tgt == 'RomanLoC' and src in GeneralMap.LoCScripts:
@@ -483,16 +490,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
     if src == "Oriya" and tgt == "IPA":
         txt = ConvertFix.OriyaIPAFixPre(txt)
 
-    if src == "Itrans" and '##' in txt:
-        #print('I am here tyring to do things')
-        transliteration = ''
-        for i, word in enumerate(txt.split("##")):
-            if (i%2 == 0):
-                transliteration += Convert.convertScript(word, src, tgt)
-            else:
-                transliteration += word
-    else:
-        transliteration = Convert.convertScript(txt, src, tgt)
+    transliteration = Convert.convertScript(txt, src, tgt)
 
     #print(transliteration)
 
-- 
2.43.0


From c96b3ab0add7912b319a865fd6888b45a1f9651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 24/30] =?UTF-8?q?fix:=20the=20Latin=20letters=20=C5=8D=20a?=
 =?UTF-8?q?nd=20A=20were=20not=20kept=20apart=20in=20Semitic=20text?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aksharamukha/PreProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 653eca0..680e3ac 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -739,7 +739,7 @@ def MalayalamTranscribe(Strng):
 def retainLatin(Strng, reverse=False):
     latn_basic_lower = 'a b c d e f g h i j k l m n o p q r s t u v w x y z ḥ ṭ ṣ ʾ ʿ š ā ī ū ē ō'
     latn_basic_upper = latn_basic_lower.upper()
-    latn_all = latn_basic_lower + latn_basic_upper
+    latn_all = latn_basic_lower + ' ' + latn_basic_upper
     latn_all = latn_all.split(' ')
 
     if not reverse:
-- 
2.43.0


From af88244f59803d577b2a26373560e1b04573d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 25/30] fix: keep Vedic accents when converting to
 romanizations

An accent of Indic text written with arrows, or of a romanization, going to
a romanization lost its apostrophe to the avagraha of the target (Ahom to
Baraha gave \&, IAST to Mro a lone backslash). Carry the accents as signs
of their own through the conversion.
---
 aksharamukha/Convert.py    | 5 +++++
 aksharamukha/PreProcess.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/aksharamukha/Convert.py b/aksharamukha/Convert.py
index ccf0f9b..3947428 100644
--- a/aksharamukha/Convert.py
+++ b/aksharamukha/Convert.py
@@ -158,6 +158,9 @@ def convertScript(Strng,Source,Target):
 
         ScriptAll = GM.Vowels+GM.Consonants+GM.CombiningSigns+GM.Numerals+GM.Signs+GM.Aytham
 
+        # The apostrophe of an accent is not an avagraha
+        Strng = CF.VedicSvarasLatinIndic(Strng, Source)
+
         Strng = convertInter(Strng,Source)
 
         SourceScript = GM.CrunchSymbols(ScriptAll,GM.Inter)
@@ -167,6 +170,8 @@ def convertScript(Strng,Source,Target):
         for x,y in ScriptMapAll:
             Strng = Strng.replace(x,y)
 
+        Strng = CF.VedicSvarsIndicLatin(Strng)
+
         Strng = CF.PostFixRomanOutput(Strng,Source,Target)
 
     elif Source in GM.IndicScripts and Target in GM.IndicScripts:
diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 680e3ac..7c7720d 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -1393,7 +1393,7 @@ def PreProcess(Strng,Source,Target,postoptions,preoptions):
     if Source == "Latn" and 'Syr' in Target:
         Strng = Strng.replace('ḇ', 'v').replace('ḡ', 'ḡ').replace('ḵ', 'ḫ').replace('p̄', 'f')
 
-    if ('↓' in Strng or '↑' in Strng) and Target in GM.IndicScripts :
+    if ('↓' in Strng or '↑' in Strng) and (Target in GM.IndicScripts or (Source in GM.IndicScripts and Target in GM.LatinScripts)) :
         Strng = Strng.replace('↓', '॒')
         Strng = Strng.replace('↑↑', '᳚')
         Strng = Strng.replace('↑', '॑')
-- 
2.43.0


From 0501972fdd094bf646641f059e917d8fa2054554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 26/30] fix: Multani: write the implosive retroflex with its
 letter

---
 aksharamukha/ConvertFix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 55c7051..60981f3 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -3537,7 +3537,7 @@ def FixAhom(Strng, reverse = False):
 def FixMultani(Strng, reverse = False):
     if not reverse:
         Strng = Strng.replace('\u02BE','').replace('\u02BF','')
-        Strng = Strng.replace('ˍ\U0001128C', '\U0001128D').replace('ˍ\U00011282','\U00011293') ## Plosives
+        Strng = Strng.replace('ˍ\U0001128C', '\U0001128D').replace('ˍ\U00011292','\U00011293') ## Plosives
 
     else:
         Strng = Strng.replace('\U0001128D','ˍ\U0001128C').replace('\U00011293','ˍ\U00011292') ## Plsosives
-- 
2.43.0


From c678cebbc17116f0f96c886ec74f17d36f034909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 27/30] fix: reading kana: lines and other scripts are kept,
 and la and nga are read

---
 aksharamukha/PreProcess.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aksharamukha/PreProcess.py b/aksharamukha/PreProcess.py
index 7c7720d..04c63a0 100644
--- a/aksharamukha/PreProcess.py
+++ b/aksharamukha/PreProcess.py
@@ -767,11 +767,20 @@ def JapanesePreProcess(src, txt, preoptions):
         txt = Convert.convertScript(txt.lower(), "ISO", "Devanagari")
         #print(txt)
 
-        cv = kks.convert(txt)
+        # Only Japanese is read; the rest of the text is left as it is
+        parts = re.split('([^ -~\u3000-\u30FF\u31F0-\u31FF\u3400-\u9FFF\uF900-\uFAFF\uFF00-\uFFEF]+)', txt)
         txt = ''
 
-        for item in cv:
-            txt = txt + ' ' + item['hepburn']
+        for i, part in enumerate(parts):
+            if i % 2 == 1:
+                txt = txt + part
+            elif part:
+                for item in kks.convert(part):
+                    txt = txt + ' ' + item['hepburn']
+
+        # The mark of la and nga belongs to its letter
+        txt = txt.replace(' \u309A', '\u309A')
+        txt = re.sub('\u309A (?=\\S)', '\u309A', txt)
 
         if 'eiaudipthongs' in preoptions:
             txt = txt.replace('ou', 'o\u02BDu').replace('ei', 'e\u02BDi')
-- 
2.43.0


From d05bf530b7a0b0c88d3dab327b15949f1876c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 28/30] fix: kana to Ranjana and Siddham (Devanagari) are not
 turned back into ISO

---
 aksharamukha/transliterate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/transliterate.py b/aksharamukha/transliterate.py
index 6f4cb3e..1a00f5d 100644
--- a/aksharamukha/transliterate.py
+++ b/aksharamukha/transliterate.py
@@ -494,7 +494,7 @@ def convert(src, tgt, txt, nativize, preoptions, postoptions):
 
     #print(transliteration)
 
-    if srcOld == 'Japanese' and tgt != 'Devanagari' and 'siddhammukta' not in postoptions:
+    if srcOld == 'Japanese' and tgt not in ['Devanagari', 'Ranjana', 'SiddhamDevanagari'] and 'siddhammukta' not in postoptions:
         transliteration = Convert.convertScript(transliteration, "Devanagari", "ISO")
         # print(transliteration)
 
-- 
2.43.0


From bae986501673db98f1bdfb7f983fa955d6305aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 29/30] fix: katakana: ffu is written as in hiragana

---
 aksharamukha/ScriptMap/NonIndic/kana2roman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aksharamukha/ScriptMap/NonIndic/kana2roman.py b/aksharamukha/ScriptMap/NonIndic/kana2roman.py
index 32bf463..dd061cb 100644
--- a/aksharamukha/ScriptMap/NonIndic/kana2roman.py
+++ b/aksharamukha/ScriptMap/NonIndic/kana2roman.py
@@ -238,7 +238,7 @@ HEPBURNTAB = """ァ      xa      ア       a       ィ       xi      イ       i
 ッハ      hha     ッバ      bba     ッパ      ppa     ッヒ      hhi
 ッヒャ     hhya    ッヒュ     hhyu    ッヒョ     hhyo    ッビ      bbi
 ッビャ     bbya    ッビュ     bbyu    ッビョ     bbyo    ッピ      ppi
-ッピャ     ppya    ッピュ     ppyu    ッピョ     ppyo    ッフ      ffu     ッフュ  ffu
+ッピャ     ppya    ッピュ     ppyu    ッピョ     ppyo    ッフ      ffu     ッフュ  ffyu
 ッファ     ffa     ッフィ     ffi     ッフェ     ffe     ッフォ     ffo
 ッブ      bbu     ップ      ppu     ッヘ      hhe     ッベ      bbe     ッペ      ppe
 ッホ      hho     ッボ      bbo     ッポ      ppo     ッヤ      yya     ッユ      yyu
-- 
2.43.0


From c2f573f309c45f8db739339e5953fd86c9c6b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 30/30] fix: long numbers to Old Persian and Kharoshthi raised
 MemoryError, OverflowError or ValueError

---
 aksharamukha/ConvertFix.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aksharamukha/ConvertFix.py b/aksharamukha/ConvertFix.py
index 60981f3..d1ccbb1 100644
--- a/aksharamukha/ConvertFix.py
+++ b/aksharamukha/ConvertFix.py
@@ -2250,6 +2250,10 @@ def OldPersianSyllable(Strng,reverse=True):
 
     return Strng
 
+# Replace a number, but not in the middle of one longer than the given length
+def ReplaceNumber(Strng, num, signs, length):
+    return re.sub('(?<!\d)\d{%d,}(?!\d)|%d' % (length + 1, num), lambda m: signs if m.group(0) == str(num) else m.group(0), Strng)
+
 # Convert numbers into Persinal Numeral System
 def OldPersianNumeral(Strng,reverse=False):
     One = '\U000103D1'
@@ -2258,7 +2262,8 @@ def OldPersianNumeral(Strng,reverse=False):
     Twenty = '\U000103D4'
     Hundred = '\U000103D5'
 
-    Numbers = sorted(map(int,re.findall("\d+", Strng)),reverse=True)
+    # Each hundred is a sign of its own: numbers over nine digits are left as they are
+    Numbers = sorted([int(x) for x in re.findall("\d+", Strng) if len(x) <= 9],reverse=True)
 
     if not reverse:
         for num in Numbers:
@@ -2270,7 +2275,7 @@ def OldPersianNumeral(Strng,reverse=False):
 
             perNum = (Hundred*hN) + (Twenty*tW) + (Ten*tN) + (Two*t2) + (One*n1)
 
-            Strng = Strng.replace(str(num),perNum)
+            Strng = ReplaceNumber(Strng, num, perNum, 9)
     else:
         Strng = Strng.replace(One, '1#')
         Strng = Strng.replace(Two, '2#')
@@ -2281,11 +2286,12 @@ def OldPersianNumeral(Strng,reverse=False):
     return Strng
 
 def KharoshthiNumerals(Strng, reverse=False):
-    Numbers = sorted(map(int,re.findall("\d+", Strng)),reverse=True)
+    # Longer numbers cannot be read as a sum any more and are left as they are
+    Numbers = sorted([int(x) for x in re.findall("\d+", Strng) if len(x) <= 15],reverse=True)
 
     if not reverse:
         for num in Numbers:
-             Strng = Strng.replace(str(num),kharoshthiNumber(num))
+             Strng = ReplaceNumber(Strng, num, kharoshthiNumber(num), 15)
     else:
         one = '𐩀'
         two = '𐩁'
-- 
2.43.0

