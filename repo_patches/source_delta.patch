From 3a87a7dbfcbbe2017675be833c8394285b64c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 01/63] fix: Never leave an incomplete project behind when
 saving fails

The project was written in two passes, the second one without restoring
the backup on failure. Process the xml code in memory, write it in one go,
roll back on any error, and remove a new file that could not be completed.
---
 src/pywriter/yw/data_files.py |  1 +
 src/pywriter/yw/yw7_file.py   | 33 ++++++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/yw/data_files.py b/src/pywriter/yw/data_files.py
index 078f919..b369608 100644
--- a/src/pywriter/yw/data_files.py
+++ b/src/pywriter/yw/data_files.py
@@ -73,3 +73,4 @@ class DataFiles(Yw7File):
         except(PermissionError):
             raise Error(f'{_("File is write protected")}: "{norm_path(itemPath)}".')
 
+        self._postprocess_xml_file(ywProject.filePath)
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..35b23bc 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -202,7 +202,6 @@ class Yw7File(File):
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
         self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1133,6 +1132,23 @@ class Yw7File(File):
         """
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
+        text = self._postprocess_xml_text(text)
+        try:
+            with open(filePath, 'w', encoding='utf-8') as f:
+                f.write(text)
+        except:
+            raise Error(f'{_("Cannot write file")}: "{norm_path(filePath)}".')
+
+    def _postprocess_xml_text(self, text):
+        """Postprocess xml code created by ElementTree.
+        
+        Positional argument:
+            text: str -- xml code.
+        
+        Put a header on top, insert the missing CDATA tags,
+        and replace xml entities by plain text (unescape).
+        Return the postprocessed xml code. 
+        """
         lines = text.split('\n')
         newlines = ['<?xml version="1.0" encoding="utf-8"?>']
         for line in lines:
@@ -1147,11 +1163,7 @@ class Yw7File(File):
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
         text = unescape(text)
-        try:
-            with open(filePath, 'w', encoding='utf-8') as f:
-                f.write(text)
-        except:
-            raise Error(f'{_("Cannot write file")}: "{norm_path(filePath)}".')
+        return text
 
     def _read_project(self, root):
         """Read attributes at project level from the xml element tree."""
@@ -1684,9 +1696,12 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        If the file cannot be written completely, restore the previous version.
         Raise the "Error" exception in case of error. 
         """
+        text = self._postprocess_xml_text(ET.tostring(ywProject.tree.getroot(), encoding='unicode'))
         backedUp = False
+        created = False
         if os.path.isfile(ywProject.filePath):
             try:
                 os.replace(ywProject.filePath, f'{ywProject.filePath}.bak')
@@ -1695,9 +1710,13 @@ class Yw7File(File):
             else:
                 backedUp = True
         try:
-            ywProject.tree.write(ywProject.filePath, xml_declaration=False, encoding='utf-8')
+            with open(ywProject.filePath, 'x', encoding='utf-8') as f:
+                created = True
+                f.write(text)
         except:
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
+            elif created:
+                os.remove(ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
 
-- 
2.43.0


From f44e518bb891a19c74202e74a0042c111d1706d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 02/63] fix: Keep the xml code well-formed when saving a
 project

Entities were replaced by plain text everywhere, although not all text
elements are CDATA: a conflict or custom field containing "&" or "<" made
the project unreadable. Fields written as CDATA were escaped once more with
each saving, and a CDATA end mark in a text broke the file.
---
 src/pywriter/yw/yw7_file.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 35b23bc..5b82352 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1100,20 +1100,10 @@ class Yw7File(File):
         Optional arguments:
             quick: bool -- if True, apply a conversion mode for one-liners without formatting.
         
+        The XML predefined entities are applied when the xml element tree is serialized.
         Overrides the superclass method.
         """
-        if text:
-            # Apply XML predefined entities.
-            XML_REPLACEMENTS = [
-                ('&', '&amp;'),
-                ('>', '&gt;'),
-                ('<', '&lt;'),
-                ("'", '&apos;'),
-                ('"', '&quot;'),
-                ]
-            for yw, xm in XML_REPLACEMENTS:
-                text = text.replace(yw, xm)
-        else:
+        if not text:
             text = ''
         return text
 
@@ -1146,7 +1136,7 @@ class Yw7File(File):
             text: str -- xml code.
         
         Put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape).
+        and replace xml entities by plain text (unescape) within CDATA.
         Return the postprocessed xml code. 
         """
         lines = text.split('\n')
@@ -1162,7 +1152,13 @@ class Yw7File(File):
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
+
+        def unescape_cdata(match):
+            # Only CDATA may contain plain text; a CDATA end mark in the text must be split.
+            content = unescape(match.group(1)).replace(']]>', ']]]]><![CDATA[>')
+            return f'<![CDATA[{content}]]>'
+
+        text = re.sub(r'\<!\[CDATA\[(.*?)\]\]\>', unescape_cdata, text, flags=re.DOTALL)
         return text
 
     def _read_project(self, root):
-- 
2.43.0


From 7a4c21fdfe518e641ca9a883bf82e3b998d2515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 03/63] fix: Do not alter square brackets after a line break
 when saving a project

Line breaks in front of any double square bracket were deleted, as well as
a blank first line. Of several line breaks at the end of a text, each saving
deleted one.
---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5b82352..7b370a4 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1147,8 +1147,8 @@ class Yw7File(File):
                 line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
             newlines.append(line)
         text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+        text = re.sub(r'\n+\]\]\>', ']]>', text)
+        # removing all line breaks at the end of a text, so that further savings do not change it
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-- 
2.43.0


From 26bcce67e052c902ffa3c2549fab0260b3fd01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 04/63] fix: Do not delete vertical bars when reading a project

The vertical bar is no separator within a regular expression's character class.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 7b370a4..f1bc46e 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From b453c82547d3ebde2146e5165865978c21bd3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 05/63] fix: Write a scene's items under the tag that is read

yWriter and the reading method use ItemID; the items written as ItmID were
lost with the next saving.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index f1bc46e..96b594f 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -528,7 +528,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From 73dcfe8f57bf12ef506d885abb9c187fcea76811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 06/63] fix: Discard the previous content when reading a
 project again

Elements deleted in the meantime were resurrected with the next saving,
and the languages were doubled.
---
 src/pywriter/yw/yw7_file.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 96b594f..71df1f1 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1163,6 +1163,10 @@ class Yw7File(File):
 
     def _read_project(self, root):
         """Read attributes at project level from the xml element tree."""
+        for attribute in ('title', 'authorName', 'authorBio', 'desc', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4',
+                          'wordCountStart', 'wordTarget', 'languageCode', 'countryCode', 'languages'):
+            setattr(self.novel, attribute, None)
+        # This is necessary for re-reading.
         xmlProject = root.find('PROJECT')
 
         if xmlProject.find('Title') is not None:
@@ -1221,6 +1225,7 @@ class Yw7File(File):
     def _read_locations(self, root):
         """Read locations from the xml element tree."""
         self.novel.srtLocations = []
+        self.novel.locations = {}
         # This is necessary for re-reading.
         for xmlLocation in root.find('LOCATIONS'):
             lcId = xmlLocation.find('ID').text
@@ -1258,6 +1263,7 @@ class Yw7File(File):
     def _read_items(self, root):
         """Read items from the xml element tree."""
         self.novel.srtItems = []
+        self.novel.items = {}
         # This is necessary for re-reading.
         for xmlItem in root.find('ITEMS'):
             itId = xmlItem.find('ID').text
@@ -1295,6 +1301,7 @@ class Yw7File(File):
     def _read_characters(self, root):
         """Read characters from the xml element tree."""
         self.novel.srtCharacters = []
+        self.novel.characters = {}
         # This is necessary for re-reading.
         for xmlCharacter in root.find('CHARACTERS'):
             crId = xmlCharacter.find('ID').text
@@ -1349,6 +1356,7 @@ class Yw7File(File):
     def _read_projectnotes(self, root):
         """Read project notes from the xml element tree."""
         self.novel.srtPrjNotes = []
+        self.novel.projectNotes = {}
         # This is necessary for re-reading.
 
         try:
@@ -1401,6 +1409,8 @@ class Yw7File(File):
 
     def _read_scenes(self, root):
         """ Read attributes at scene level from the xml element tree."""
+        self.novel.scenes = {}
+        # This is necessary for re-reading.
         for xmlScene in root.find('SCENES'):
             scId = xmlScene.find('ID').text
             self.novel.scenes[scId] = Scene()
@@ -1586,6 +1596,7 @@ class Yw7File(File):
     def _read_chapters(self, root):
         """Read attributes at chapter level from the xml element tree."""
         self.novel.srtChapters = []
+        self.novel.chapters = {}
         # This is necessary for re-reading.
         for xmlChapter in root.find('CHAPTERS'):
             chId = xmlChapter.find('ID').text
-- 
2.43.0


From 562f7e8bfb0e11f95e54e6d64d176e1b6260a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 07/63] fix: Report it, if the temporary directory cannot be
 created

The exception was raised past the converter's error handling.
---
 src/pywriter/odf/odf_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..0007d01 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -41,7 +41,10 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except OSError as ex:
+            raise Error(f'{_("Cannot create directory")} - {str(ex)}')
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From 7aaf3452f512a873f35b58f6f197495d762ee365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/63] fix: Restore the document's path, if content.xml cannot
 be written

A second attempt with the same object wrote the document into the temporary
directory and reported success.
---
 src/pywriter/odf/odf_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 0007d01..c549a20 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -69,8 +69,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
-- 
2.43.0


From 01fa6a411b8fca9aaeddd6faafb0957e166684b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 09/63] fix: Do not leave an incomplete document behind when
 exporting fails

---
 src/pywriter/odf/odf_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index c549a20..3d08593 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -77,6 +77,7 @@ class OdfFile(FileExport):
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
         backedUp = False
+        created = False
         if os.path.isfile(self.filePath):
             try:
                 os.replace(self.filePath, f'{self.filePath}.bak')
@@ -85,7 +86,8 @@ class OdfFile(FileExport):
             else:
                 backedUp = True
         try:
-            with zipfile.ZipFile(self.filePath, 'w') as odfTarget:
+            with zipfile.ZipFile(self.filePath, 'x') as odfTarget:
+                created = True
                 os.chdir(self._tempDir)
                 for file in self._ODF_COMPONENTS:
                     odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
@@ -93,6 +95,8 @@ class OdfFile(FileExport):
             os.chdir(workdir)
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif created:
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot create file")}: "{norm_path(self.filePath)}".')
 
         #--- Remove temporary data.
-- 
2.43.0


From 61b0dff3e76b7c3bbd4aa4f24f5b19cf267cd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 10/63] fix: Report the cancellation, if a conversion is
 interrupted by the keyboard

The message variable was unbound.
---
 src/pywriter/converter/yw_cnv_ui.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ui.py b/src/pywriter/converter/yw_cnv_ui.py
index fff7987..d7de817 100644
--- a/src/pywriter/converter/yw_cnv_ui.py
+++ b/src/pywriter/converter/yw_cnv_ui.py
@@ -52,6 +52,8 @@ class YwCnvUi:
         """
         self.ui.set_info_what(
             _('Input: {0} "{1}"\nOutput: {2} "{3}"').format(source.DESCRIPTION, norm_path(source.filePath), target.DESCRIPTION, norm_path(target.filePath)))
+        message = f'!{_("Action canceled by user")}.'
+        # to be reported in case of a keyboard interrupt
         try:
             self.check(source, target)
             source.novel = Novel()
@@ -90,6 +92,8 @@ class YwCnvUi:
         if os.path.isfile(target.filePath):
             self.ui.set_info_how(f'!{_("File already exists")}: "{norm_path(target.filePath)}".')
         else:
+            message = f'!{_("Action canceled by user")}.'
+            # to be reported in case of a keyboard interrupt
             try:
                 self.check(source, target)
                 source.novel = Novel()
@@ -125,6 +129,8 @@ class YwCnvUi:
         self.ui.set_info_what(
             _('Input: {0} "{1}"\nOutput: {2} "{3}"').format(source.DESCRIPTION, norm_path(source.filePath), target.DESCRIPTION, norm_path(target.filePath)))
         self.newFile = None
+        message = f'!{_("Action canceled by user")}.'
+        # to be reported in case of a keyboard interrupt
         try:
             self.check(source, target)
             target.novel = Novel()
-- 
2.43.0


From 1b0cd300ca89052361635a490748a4ee49f93cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 11/63] fix: Keep the settings that cannot be read unchanged

A damaged configuration file, an option that is not boolean, or a percent
sign stopped the program.
---
 src/pywriter/config/configuration.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..ce7e8ed 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,8 +45,13 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
-        config.read(iniFile, encoding='utf-8')
+        config = ConfigParser(interpolation=None)
+        try:
+            config.read(iniFile, encoding='utf-8')
+        except Exception:
+            # The file is damaged.
+            return
+
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
             for setting in self.settings:
@@ -56,7 +61,10 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    self.options[option] = fallback
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
@@ -76,7 +84,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From 9e81dffe4d4a0702414829c677e43ccac94bdee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 12/63] fix: Replace the configuration file only by a complete
 one

When writing was interrupted, all settings were lost or truncated.
---
 src/pywriter/config/configuration.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index ce7e8ed..d243d8e 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import os
 from configparser import ConfigParser
 
 
@@ -83,6 +84,8 @@ class Configuration:
 
         Positional arguments:
             iniFile: str -- path configuration file path.
+            
+        The previous file is replaced only when the new one is complete.
         """
         config = ConfigParser(interpolation=None)
         if self.settings:
@@ -96,5 +99,12 @@ class Configuration:
                     config.set(self._oLabel, settingId, 'Yes')
                 else:
                     config.set(self._oLabel, settingId, 'No')
-        with open(iniFile, 'w', encoding='utf-8') as f:
-            config.write(f)
+        tempFile = f'{iniFile}.tmp'
+        try:
+            with open(tempFile, 'w', encoding='utf-8') as f:
+                config.write(f)
+            os.replace(tempFile, iniFile)
+        except:
+            if os.path.isfile(tempFile):
+                os.remove(tempFile)
+            raise
-- 
2.43.0


From 8a54ef4e6a879234b1c0e4fb100f5694859d293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 13/63] fix: Process contiguous text of an ODT document as a
 whole

---
 src/pywriter/odt_r/odt_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..8596db4 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -38,6 +38,7 @@ class OdtParser(sax.ContentHandler):
         self._span = []
         self._style = None
         self._client = client
+        self._text = []
 
     def feed_file(self, filePath):
         """Feed an ODT file to the parser.
@@ -105,8 +106,19 @@ class OdtParser(sax.ContentHandler):
     def characters(self, content):
         """Receive notification of character data.
         
+        The SAX parser may split contiguous character data into any number of chunks.
+        Collect them, until the next tag is reached.
         Overrides the xml.sax.ContentHandler method             
         """
+        self._text.append(content)
+
+    def _flush_text(self):
+        """Process the character data collected since the last tag."""
+        if not self._text:
+            return
+
+        content = ''.join(self._text)
+        self._text = []
         if self._commentParagraphCount is not None:
             if self._commentParagraphCount == 1:
                 self._comment = f'{self._comment}{content}'
@@ -120,6 +132,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
+        self._flush_text()
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
@@ -154,6 +167,7 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        self._flush_text()
         xmlAttributes = {}
         for attribute in attrs.items():
             attrKey, attrValue = attribute
-- 
2.43.0


From 4d64fc8cefc5d1d648cbfc38e74cc23a9ddd2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 14/63] fix: Keep the blanks around text spans when importing
 ODT documents

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 4 ++--
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 ++-
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..d565276 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -37,7 +37,7 @@ class OdtRChapterDesc(OdtReader):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
-                    self.novel.chapters[self._chId].title = ''.join(self._lines)
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
                 self._lines = []
 
     def handle_data(self, data):
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..a99f0e7 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,7 +57,8 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
+            if not data.isspace() or '\n' not in data:
+                # do not drop blanks between text spans
                 self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
-- 
2.43.0


From 393e0b036cf9f2673e2b485ed1137fe5d917127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 15/63] fix: Escape the metadata of exported documents

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 3d08593..57ef0b3 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -156,9 +157,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 3bc1184743dbc372a9ab7c88e7012f08355e624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 16/63] fix: Escape the author's name in document comments

---
 src/pywriter/odt_w/odt_w_export.py    | 4 +++-
 src/pywriter/odt_w/odt_w_formatted.py | 3 ++-
 src/pywriter/odt_w/odt_w_proof.py     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..827b1d5 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import re
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -108,7 +109,8 @@ class OdtWExport(OdtWFormatted):
             text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
+            authorName = escape(self.novel.authorName or '').replace('\\', '\\\\')
+            simpleComment = (f'<office:annotation><dc:creator>{authorName}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
             text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..31f0331 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -148,7 +149,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..f633388 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,7 +65,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
-- 
2.43.0


From 05ea53b8762234ee09d0dae7e998d4b2899b33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 17/63] fix: Escape the alternate names in the world building
 documents

---
 src/pywriter/odt_w/odt_w_characters.py | 4 ++--
 src/pywriter/odt_w/odt_w_items.py      | 2 +-
 src/pywriter/odt_w/odt_w_locations.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..d609448 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{characterMapping["AKA"]}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{characterMapping["FullName"]}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..d6c5b29 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{itemMapping["AKA"]}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..a0f9da5 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{locationMapping["AKA"]}")'
         return locationMapping
-- 
2.43.0


From f98ecaa0fff9d3e2418f045686b9e8bfb695fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 18/63] fix: Escape the names of characters, locations, and
 items in the scene list

---
 src/pywriter/file/file_export.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..68d5343 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -535,10 +535,10 @@ class FileExport(File):
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
             Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
-- 
2.43.0


From c04b788f388b962de8e1119685aed4f3bc4ca046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 19/63] fix: Escape the tags in the cross reference

---
 src/pywriter/odt_w/odt_w_xref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From 79b9a87ee6c52a5101b583293bb19fb9a1d717e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 20/63] fix: Read all project notes, even if there are custom
 fields

---
 src/pywriter/yw/yw7_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 71df1f1..a8fb28e 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1375,10 +1375,11 @@ class Yw7File(File):
                     self.novel.projectNotes[pnId].kwVar[fieldName] = None
 
                 #--- Read project note custom fields.
-                for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                for fieldName in self.PNT_KWVAR:
+                    for pnFields in xmlProjectnote.findall('Fields'):
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From f64001752432225f42f767e177fd14e0d4f8d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 21/63] fix: Update the project the imported document belongs
 to, even if the suffix occurs twice

---
 src/pywriter/converter/import_target_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..7c6a389 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -40,7 +40,7 @@ class ImportTargetFactory(FileFactory):
             e = fileName.split(sourceSuffix)
             if len(e) > 1:
                 e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = sourceSuffix.join(e)
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From a9fcf4bc19049b03cd7bdae537cbb137f8e4c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 22/63] fix: Read all blanks of a sequence when importing ODT
 documents

---
 src/pywriter/odt_r/odt_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 8596db4..6a02e49 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -246,5 +246,7 @@ class OdtParser(sax.ContentHandler):
                     locale = lngCode
                 self._languageTags[self._style] = locale
         elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+            # The element may represent more than one blank.
+            for __ in range(int(xmlAttributes.get('text:c', 1))):
+                self._client.handle_starttag('s', [()])
 
-- 
2.43.0


From 5637439435db25bdf265df5d716115e64b4a8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 23/63] fix: Do not lose the text before a chapter divider
 followed by a scene divider

---
 src/pywriter/model/splitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..80d21bd 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -137,8 +137,9 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-                        newLines = []
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                            newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
                         create_scene(sceneId, file.novel.scenes[scId], sceneSplitCount, title, desc)
-- 
2.43.0


From b73cb466e3907d874c39b807a0405c22659436f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 24/63] fix: Keep the types of existing chapters and scenes
 when importing a document

---
 src/pywriter/odt_r/odt_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..6caf122 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -103,14 +103,14 @@ class OdtReader(File, ABC):
                     if not self._scId in self.novel.scenes:
                         self.novel.scenes[self._scId] = Scene()
                         self.novel.chapters[self._chId].srtScenes.append(self._scId)
-                    self.novel.scenes[self._scId].scType = self._TYPE
+                        self.novel.scenes[self._scId].scType = self._TYPE
                 elif attrs[0][1].startswith('ChID'):
                     self._chId = re.search(r'[0-9]+', attrs[0][1]).group()
                     if not self._chId in self.novel.chapters:
                         self.novel.chapters[self._chId] = Chapter()
                         self.novel.chapters[self._chId].srtScenes = []
                         self.novel.srtChapters.append(self._chId)
-                    self.novel.chapters[self._chId].chType = self._TYPE
+                        self.novel.chapters[self._chId].chType = self._TYPE
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0


From 533a9899f5c2048c5257075221a21d23349e97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 25/63] fix: Split only scenes that are part of the imported
 document

---
 src/pywriter/model/splitter.py        | 8 +++++++-
 src/pywriter/odt_r/odt_r_formatted.py | 2 +-
 src/pywriter/odt_r/odt_r_import.py    | 1 +
 src/pywriter/odt_r/odt_r_proof.py     | 1 +
 src/pywriter/odt_r/odt_reader.py      | 3 +++
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 80d21bd..d32244e 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -32,7 +32,7 @@ class Splitter:
     _CLIP_TITLE = 20
     # Maximum length of newly generated scene titles.
 
-    def split_scenes(self, file):
+    def split_scenes(self, file, scIds=None):
         """Split scenes by inserted chapter and scene dividers.
         
         Update a Novel instance by generating new chapters and scenes 
@@ -40,6 +40,9 @@ class Splitter:
         
         Positional argument: 
             file -- File instance to update.
+
+        Optional argument: 
+            scIds -- list of str: IDs of the scenes that may be split; all scenes by default.
         
         Return True if the sructure has changed, 
         otherwise return False.        
@@ -118,6 +121,9 @@ class Splitter:
             srtScenes = []
             for scId in file.novel.chapters[chId].srtScenes:
                 srtScenes.append(scId)
+                if scIds is not None and not scId in scIds:
+                    continue
+
                 if not file.novel.scenes[scId].sceneContent:
                     continue
 
diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index cdb28a4..a581f2c 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -32,7 +32,7 @@ class OdtRFormatted(OdtReader):
 
         # Split scenes, if necessary.
         sceneSplitter = Splitter()
-        self.scenesSplit = sceneSplitter.split_scenes(self)
+        self.scenesSplit = sceneSplitter.split_scenes(self, self._scIds)
 
     def _cleanup_scene(self, text):
         """Clean up yWriter markup.
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..d80b8cc 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -136,6 +136,7 @@ class OdtRImport(OdtRFormatted):
                 self._lines = []
                 self._scCount += 1
                 self._scId = str(self._scCount)
+                self._scIds.append(self._scId)
                 self.novel.scenes[self._scId] = Scene()
                 self.novel.chapters[self._chId].srtScenes.append(self._scId)
                 self.novel.scenes[self._scId].status = 1
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..a3ba954 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -36,6 +36,7 @@ class OdtRProof(OdtRFormatted):
                 self._skip_data = False
             elif '[ScID' in data:
                 self._scId = re.search(r'[0-9]+', data).group()
+                self._scIds.append(self._scId)
                 self._lines = []
             elif '[/ScID' in data:
                 if self._scId in self.novel.scenes:
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 6caf122..210a090 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -53,6 +53,8 @@ class OdtReader(File, ABC):
         super().__init__(filePath)
         self._lines = []
         self._scId = None
+        self._scIds = []
+        # IDs of all the scenes found in the document
         self._chId = None
         self._newline = False
         self._language = ''
@@ -100,6 +102,7 @@ class OdtReader(File, ABC):
             if attrs[0][0] == 'id':
                 if attrs[0][1].startswith('ScID'):
                     self._scId = re.search(r'[0-9]+', attrs[0][1]).group()
+                    self._scIds.append(self._scId)
                     if not self._scId in self.novel.scenes:
                         self.novel.scenes[self._scId] = Scene()
                         self.novel.chapters[self._chId].srtScenes.append(self._scId)
-- 
2.43.0


From b0745ce8396ae915df048a7b617dd69035ea512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 26/63] fix: spreadsheets with repeated cells at the end of a
 row were refused

---
 src/pywriter/ods_r/ods_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..dcda03d 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -87,6 +87,10 @@ class OdsParser:
 
                         cells.append(content)
                         i += 1
+                    if i >= cellsPerRow:
+                        # The row is complete.
+                        break
+
             if cells:
                 rows.append(cells)
                 # print(cells)
-- 
2.43.0


From 53b080bee471e0d622539af610ad30e038b2e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 27/63] fix: a refused reading removed the project's custom
 fields from memory

---
 src/pywriter/yw/yw7_file.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index a8fb28e..5f97582 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -133,9 +133,6 @@ class Yw7File(File):
         Overrides the superclass method.
         """
 
-        for field in self.PRJ_KWVAR:
-            self.novel.kwVar[field] = None
-
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
         try:
-- 
2.43.0


From c177c510e4bee8f3b12e691eca2e38c62019f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:35 +0000
Subject: [PATCH 28/63] fix: typed divider descriptions were cut at a second
 vertical bar

---
 src/pywriter/model/splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index d32244e..00739d7 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -135,7 +135,7 @@ class Splitter:
 
                 # Search scene content for dividers.
                 for line in lines:
-                    heading = line.strip('# ').split(self.DESC_SEPARATOR)
+                    heading = line.strip('# ').split(self.DESC_SEPARATOR, maxsplit=1)
                     title = heading[0]
                     try:
                         desc = heading[1]
-- 
2.43.0


From 5be74a1a552293260aeb118d9cb59ddbc6a7648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 29/63] fix: the export-only converter raised an exception for
 unsupported files

---
 src/pywriter/converter/yw_cnv_ff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b3ec362 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -76,6 +76,9 @@ class YwCnvFf(YwCnvUi):
             except Error:
                 # A new yWriter project might be required.
                 try:
+                    if self.newProjectFactory is None:
+                        raise Error(f'{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
                     self.ui.set_info_how(f'!{str(ex)}')
-- 
2.43.0


From 8dfb7a3ff1a1272b0142a9a9f028e191096034ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:40 +0000
Subject: [PATCH 30/63] fix: projects with an XML declaration of another
 encoding could not be read

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5f97582..9a49ead 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -145,7 +145,7 @@ class Yw7File(File):
                     xmlText = f.read()
         except:
             try:
-                self.tree = ET.parse(self.filePath)
+                xmlText = ET.tostring(ET.parse(self.filePath).getroot(), encoding='unicode')
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-- 
2.43.0


From a019a881e8979fbc5be6c1fab070631543246096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 31/63] fix: the application window stayed half open when a
 damaged project was opened

---
 src/pywriter/ui/main_tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/ui/main_tk.py b/src/pywriter/ui/main_tk.py
index 47243a9..f83cfcd 100644
--- a/src/pywriter/ui/main_tk.py
+++ b/src/pywriter/ui/main_tk.py
@@ -169,7 +169,7 @@ class MainTk(Ui):
         self.prjFile.novel = self.novel
         try:
             self.prjFile.read()
-        except Error as ex:
+        except Exception as ex:
             self.close_project()
             self.set_info_how(f'!{str(ex)}')
             return False
-- 
2.43.0


From 39c488cf72a1ec57affe6a90405a7b3eed8f6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:47 +0000
Subject: [PATCH 32/63] fix: line breaks and tabs were dropped on import,
 blanks in headings got into the scene text

---
 src/pywriter/odt_r/odt_parser.py       | 19 +++++++++++++++----
 src/pywriter/odt_r/odt_r_manuscript.py |  4 +---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 6a02e49..34f91d8 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -22,6 +22,7 @@ class OdtParser(sax.ContentHandler):
         startElement -- Signals the start of an element in non-namespace mode.
       
     """
+    _WHITESPACE_TAGS = ('text:s', 'text:tab', 'text:line-break')
 
     def __init__(self, client):
         super().__init__()
@@ -132,6 +133,9 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
+        if name in self._WHITESPACE_TAGS:
+            return
+
         self._flush_text()
         if name == 'text:p':
             if self._commentParagraphCount is None:
@@ -167,6 +171,17 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
+        if name in self._WHITESPACE_TAGS:
+            # White space is part of the surrounding character data.
+            if name == 'text:tab':
+                self._text.append('\t')
+            elif name == 'text:s' or self._heading is not None or self._commentParagraphCount is not None:
+                # The "text:s" element may represent more than one blank.
+                self._text.append(' ' * int(attrs.get('text:c', 1)))
+            else:
+                self._text.append('\n')
+            return
+
         self._flush_text()
         xmlAttributes = {}
         for attribute in attrs.items():
@@ -245,8 +260,4 @@ class OdtParser(sax.ContentHandler):
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
-        elif name == 'text:s':
-            # The element may represent more than one blank.
-            for __ in range(int(xmlAttributes.get('text:c', 1))):
-                self._client.handle_starttag('s', [()])
 
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index a99f0e7..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,9 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace() or '\n' not in data:
-                # do not drop blanks between text spans
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 9d2bbe1f817939cf22c9ccb06ba2c84051f5ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 33/63] fix: text behind footnotes was lost on import,
 formatted comments left markup in the text

---
 src/pywriter/odt_r/odt_parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 34f91d8..150f240 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -151,11 +151,11 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
+            if self._span and self._commentParagraphCount is None:
                 self._client.handle_endtag(self._span.pop())
         elif name == 'text:section':
             self._client.handle_endtag('div')
-        elif name == 'office:annotation':
+        elif name in ('office:annotation', 'text:note'):
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
         elif name == 'text:h':
@@ -194,7 +194,9 @@ class OdtParser(sax.ContentHandler):
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
-            elif style in self._blockquoteTags:
+                return
+
+            if style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
                 self._blockquote = True
@@ -217,6 +219,9 @@ class OdtParser(sax.ContentHandler):
                 self._span.append('strong')
                 self._client.handle_starttag('strong', [()])
         elif name == 'text:span':
+            if self._commentParagraphCount is not None:
+                return
+
             if style in self._emTags:
                 self._span.append('em')
                 self._client.handle_starttag('em', [()])
@@ -232,6 +237,10 @@ class OdtParser(sax.ContentHandler):
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
+        elif name == 'text:note':
+            # Footnotes and endnotes are comments with a special mark.
+            self._commentParagraphCount = 0
+            self._comment = '@en ' if xmlAttributes.get('text:note-class', None) == 'endnote' else '@fn '
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From d2d4e0ebf73758ce1cb9980bcc66a5a38fda2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:54 +0000
Subject: [PATCH 34/63] fix: quotations in descriptions were joined with the
 following paragraph

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_outline.py     | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index d565276..c6d7d37 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..05629d1 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..be9c0bc 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..c2b9a72 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..19cbf69 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..cab1ad6 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -58,7 +58,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From 396fb67e7cd46771327b2cddff0237970aa4f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:58 +0000
Subject: [PATCH 35/63] fix: bold italic text was not closed at its end on
 import

---
 src/pywriter/odt_r/odt_parser.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 150f240..03560da 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -140,7 +140,8 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    for tag in reversed(self._span.pop()):
+                        self._client.handle_endtag(tag)
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -152,7 +153,8 @@ class OdtParser(sax.ContentHandler):
                 self._paragraph = False
         elif name == 'text:span':
             if self._span and self._commentParagraphCount is None:
-                self._client.handle_endtag(self._span.pop())
+                for tag in reversed(self._span.pop()):
+                    self._client.handle_endtag(tag)
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name in ('office:annotation', 'text:note'):
@@ -212,24 +214,27 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
+            self._span.append([])
+            # tags to be closed at the end of the element
             if style in self._emTags:
-                self._span.append('em')
+                self._span[-1].append('em')
                 self._client.handle_starttag('em', [()])
             if style in self._strongTags:
-                self._span.append('strong')
+                self._span[-1].append('strong')
                 self._client.handle_starttag('strong', [()])
         elif name == 'text:span':
             if self._commentParagraphCount is not None:
                 return
 
+            self._span.append([])
             if style in self._emTags:
-                self._span.append('em')
+                self._span[-1].append('em')
                 self._client.handle_starttag('em', [()])
             if style in self._strongTags:
-                self._span.append('strong')
+                self._span[-1].append('strong')
                 self._client.handle_starttag('strong', [()])
             if style in self._languageTags:
-                self._span.append('lang')
+                self._span[-1].append('lang')
                 self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
-- 
2.43.0


From ce85ac298e8dd2032c7dbac4a0c54539ba098800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 36/63] fix: languages without country code were exported as
 'zxx'

---
 src/pywriter/odt_w/odt_w_formatted.py | 3 ++-
 src/pywriter/odt_w/odt_w_proof.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 31f0331..0bc06e1 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -123,7 +123,8 @@ class OdtWFormatted(OdtWriter):
                 try:
                     lngCode, ctrCode = language.split('-')
                 except:
-                    lngCode = 'zxx'
+                    # The language code may come without a country code.
+                    lngCode = language if language.isalpha() else 'zxx'
                     ctrCode = 'none'
                 lines.append((f'  <style:style style:name="T{i}" style:family="text">\n'
                               f'   <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" '
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index f633388..5d8dd65 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -130,7 +130,8 @@ class OdtWProof(OdtWFormatted):
             try:
                 lngCode, ctrCode = language.split('-')
             except:
-                lngCode = 'zxx'
+                # The language code may come without a country code.
+                lngCode = language if language.isalpha() else 'zxx'
                 ctrCode = 'none'
             lines.append(f'''  <style:style style:name="T{i}" style:family="text">
    <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" style:language-asian="{lngCode}" style:country-asian="{ctrCode}" style:language-complex="{lngCode}" style:country-complex="{ctrCode}"/>
-- 
2.43.0


From b71b0e2d8ee9029bc284aefb5a11534e12a864ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 37/63] fix: text was lost when lists, quotations, or
 subheadings began a scene or description

---
 src/pywriter/odt_r/odt_r_import.py  | 39 +++++++++++++++++++----------
 src/pywriter/odt_r/odt_r_outline.py |  2 +-
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index d80b8cc..cdf09df 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -50,6 +50,7 @@ class OdtRImport(OdtRFormatted):
         self._chCount = 0
         self._scCount = 0
         self._heading = False
+        self._subheading = False
 
     def handle_comment(self, data):
         """Process inline comments within scene content.
@@ -79,9 +80,11 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if self._scId is not None and self._SCENE_DIVIDER in data:
+        if self._SCENE_DIVIDER in data:
             self._scId = None
         else:
+            if self._subheading:
+                self._start_scene()
             self._lines.append(data)
 
     def handle_endtag(self, tag):
@@ -92,7 +95,8 @@ class OdtRImport(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ('p', 'blockquote'):
+        if tag in ('p', 'blockquote', 'h4', 'h5', 'h6'):
+            self._subheading = False
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
@@ -132,16 +136,7 @@ class OdtRImport(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag == 'p':
-            if self._scId is None and self._chId is not None:
-                self._lines = []
-                self._scCount += 1
-                self._scId = str(self._scCount)
-                self._scIds.append(self._scId)
-                self.novel.scenes[self._scId] = Scene()
-                self.novel.chapters[self._chId].srtScenes.append(self._scId)
-                self.novel.scenes[self._scId].status = 1
-                self.novel.scenes[self._scId].scType = 0
-                self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+            self._start_scene()
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
@@ -192,9 +187,14 @@ class OdtRImport(OdtRFormatted):
                 elif attr[0] == 'country':
                     if attr[1]:
                         self.novel.countryCode = attr[1]
+        elif tag in ('h4', 'h5', 'h6'):
+            # The text may be a scene divider.
+            self._subheading = True
         elif tag == 'li':
-                self._lines.append(f'{self._BULLET} ')
+            self._start_scene()
+            self._lines.append(f'{self._BULLET} ')
         elif tag == 'blockquote':
+            self._start_scene()
             self._lines.append(f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
@@ -207,6 +207,19 @@ class OdtRImport(OdtRFormatted):
         elif tag == 's':
             self._lines.append(' ')
 
+    def _start_scene(self):
+        """Create a scene for the text to follow, if there is none."""
+        if self._scId is None and self._chId is not None:
+            self._lines = []
+            self._scCount += 1
+            self._scId = str(self._scCount)
+            self._scIds.append(self._scId)
+            self.novel.scenes[self._scId] = Scene()
+            self.novel.chapters[self._chId].srtScenes.append(self._scId)
+            self.novel.scenes[self._scId].status = 1
+            self.novel.scenes[self._scId].scType = 0
+            self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+
     def read(self):
         """Parse the file and get the instance variables.
         
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 19cbf69..0174497 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag in ('p', 'blockquote'):
+        if tag in ('p', 'blockquote', 'h4', 'h5', 'h6'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From 0bab0c57a6d063f9516ab0c493871dd6b552a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 38/63] fix: scene dividers were not recognized if stored in
 several pieces

---
 src/pywriter/odt_r/odt_r_import.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index cdf09df..066ba3a 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -51,6 +51,7 @@ class OdtRImport(OdtRFormatted):
         self._scCount = 0
         self._heading = False
         self._subheading = False
+        self._paragraphText = ''
 
     def handle_comment(self, data):
         """Process inline comments within scene content.
@@ -80,7 +81,9 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if self._SCENE_DIVIDER in data:
+        # The parser may pass the paragraph's text in several pieces.
+        self._paragraphText = f'{self._paragraphText}{data}'
+        if self._SCENE_DIVIDER in self._paragraphText:
             self._scId = None
         else:
             if self._subheading:
@@ -97,6 +100,7 @@ class OdtRImport(OdtRFormatted):
         """
         if tag in ('p', 'blockquote', 'h4', 'h5', 'h6'):
             self._subheading = False
+            self._paragraphText = ''
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
@@ -123,8 +127,10 @@ class OdtRImport(OdtRFormatted):
             self.novel.chapters[self._chId].title = ''.join(self._lines)
             self._lines = []
             self._heading = False
+            self._paragraphText = ''
         elif tag == 'title':
             self.novel.title = ''.join(self._lines)
+            self._paragraphText = ''
 
     def handle_starttag(self, tag, attrs):
         """Recognize the paragraph's beginning.
-- 
2.43.0


From 8ead35ce0ca2935bd07105013edd2b540558dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 39/63] fix: comments ending with a slash made exported
 documents unreadable

---
 src/pywriter/odt_w/odt_w_export.py    |  8 ++++++++
 src/pywriter/odt_w/odt_w_formatted.py | 16 ++++++++++++++--
 src/pywriter/odt_w/odt_w_proof.py     |  3 +--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 827b1d5..12f6927 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -51,6 +51,14 @@ class OdtWExport(OdtWFormatted):
         text = super()._convert_from_yw(text, quick)
         return(text)
 
+    def _convert_comments(self, text):
+        """Return text unchanged.
+        
+        The comments are converted together with the footnotes for the entire document.
+        Overrides the superclass method.
+        """
+        return text
+
     def _get_chapterMapping(self, chId, chapterNumber):
         """Return a mapping dictionary for a chapter section.
         
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 0bc06e1..f0dda96 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -101,6 +101,8 @@ class OdtWFormatted(OdtWriter):
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
+            if not quick:
+                text = self._convert_comments(text)
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
@@ -109,6 +111,18 @@ class OdtWFormatted(OdtWriter):
             text = ''
         return text
 
+    def _convert_comments(self, text):
+        """Return text with the comments converted to annotations.
+        
+        Positional arguments:
+            text -- string containing yw7 comments.
+            
+        A comment may contain, or end with, slashes. 
+        """
+        authorName = escape(self.novel.authorName or '')
+        return re.sub(r'\/\*(.*?)\*\/', lambda match: (f'<office:annotation><dc:creator>{authorName}</dc:creator>'
+                                                       f'<text:p>{match.group(1)}</text:p></office:annotation>'), text, flags=re.DOTALL)
+
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
         
@@ -150,8 +164,6 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
                 ]
 
     def _get_text(self):
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 5d8dd65..66cd1a8 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -65,8 +65,6 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -108,6 +106,7 @@ class OdtWProof(OdtWFormatted):
             #--- Apply odt formating.
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
+            text = self._convert_comments(text)
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-- 
2.43.0


From 5a13dad8eb50d8f63b3ab81b599effe82311ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 40/63] fix: italic words in italic paragraphs ended the
 italics of the rest

---
 src/pywriter/odt_r/odt_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 03560da..59051a6 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -226,11 +226,13 @@ class OdtParser(sax.ContentHandler):
             if self._commentParagraphCount is not None:
                 return
 
+            # yWriter markup cannot be nested: do not emphasize twice.
+            openTags = [tag for span in self._span for tag in span]
             self._span.append([])
-            if style in self._emTags:
+            if style in self._emTags and 'em' not in openTags:
                 self._span[-1].append('em')
                 self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
+            if style in self._strongTags and 'strong' not in openTags:
                 self._span[-1].append('strong')
                 self._client.handle_starttag('strong', [()])
             if style in self._languageTags:
-- 
2.43.0


From 6fce470203b7221480cd092325873e6f6124bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 41/63] fix: ratings missing in the project were exported to
 the scene list as "None"

---
 src/pywriter/ods_w/ods_w_scenelist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/ods_w/ods_w_scenelist.py b/src/pywriter/ods_w/ods_w_scenelist.py
index 3b148f7..8daee3d 100644
--- a/src/pywriter/ods_w/ods_w_scenelist.py
+++ b/src/pywriter/ods_w/ods_w_scenelist.py
@@ -218,12 +218,12 @@ class OdsWSceneList(OdsWriter):
         Extends the superclass template method.
         """
         sceneMapping = super()._get_sceneMapping(scId, sceneNumber, wordsTotal, lettersTotal)
-        if self.novel.scenes[scId].field1 == '1':
+        if self.novel.scenes[scId].field1 in (None, '1'):
             sceneMapping['Field1'] = ''
-        if self.novel.scenes[scId].field2 == '1':
+        if self.novel.scenes[scId].field2 in (None, '1'):
             sceneMapping['Field2'] = ''
-        if self.novel.scenes[scId].field3 == '1':
+        if self.novel.scenes[scId].field3 in (None, '1'):
             sceneMapping['Field3'] = ''
-        if self.novel.scenes[scId].field4 == '1':
+        if self.novel.scenes[scId].field4 in (None, '1'):
             sceneMapping['Field4'] = ''
         return sceneMapping
-- 
2.43.0


From ede5625dbfe6dc67301c5fee662a879edd8a0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 42/63] fix: a stray comment mark in one scene garbled comments
 and notes of others on export

---
 src/pywriter/odt_w/odt_w_export.py | 100 +++++++++++++++++------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 12f6927..c4fc76d 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -54,11 +54,45 @@ class OdtWExport(OdtWFormatted):
     def _convert_comments(self, text):
         """Return text unchanged.
         
-        The comments are converted together with the footnotes for the entire document.
+        Comments, footnotes, and endnotes are converted scene by scene,
+        because only the notes of the exported scenes are to be numbered.
         Overrides the superclass method.
         """
         return text
 
+    def _convert_notes(self, text):
+        """Return text with the comments, footnotes, and endnotes converted.
+        
+        Positional arguments:
+            text -- string containing a scene in the target format.
+        """
+
+        def replace_note(match):
+            noteType = match.group(1)
+            self._noteCounter += 1
+            self._noteNumber += 1
+            noteLabel = f'{self._noteNumber}'
+            if noteType.startswith('fn'):
+                noteClass = 'footnote'
+                noteStyle = 'Footnote'
+                if noteType.endswith('*'):
+                    self._noteNumber -= 1
+                    noteLabel = '*'
+            elif noteType.startswith('en'):
+                noteClass = 'endnote'
+                noteStyle = 'Endnote'
+            text = match.group(2).replace('text:style-name="First_20_line_20_indent"',
+                                          f'text:style-name="{noteStyle}"')
+            return (f'<text:note text:id="ftn{self._noteCounter}" '
+                    f'text:note-class="{noteClass}"><text:note-citation '
+                    f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
+                    f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
+
+        authorName = escape(self.novel.authorName or '')
+        text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+        return re.sub(r'\/\*(.*?)\*\/', lambda match: (f'<office:annotation><dc:creator>{authorName}</dc:creator>'
+                                                       f'<text:p>{match.group(1)}</text:p></office:annotation>'), text, flags=re.DOTALL)
+
     def _get_chapterMapping(self, chId, chapterNumber):
         """Return a mapping dictionary for a chapter section.
         
@@ -86,43 +120,29 @@ class OdtWExport(OdtWFormatted):
                 ('[/b]', '</text:span>'),
                 ]
 
-    def _get_text(self):
-
-        def replace_note(match):
-            noteType = match.group(1)
-            self._noteCounter += 1
-            self._noteNumber += 1
-            noteLabel = f'{self._noteNumber}'
-            if noteType.startswith('fn'):
-                noteClass = 'footnote'
-                noteStyle = 'Footnote'
-                if noteType.endswith('*'):
-                    self._noteNumber -= 1
-                    noteLabel = '*'
-            elif noteType.startswith('en'):
-                noteClass = 'endnote'
-                noteStyle = 'Endnote'
-            text = match.group(2).replace('text:style-name="First_20_line_20_indent"',
-                                          f'text:style-name="{noteStyle}"')
-            return (f'<text:note text:id="ftn{self._noteCounter}" '
-                    f'text:note-class="{noteClass}"><text:note-citation '
-                    f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
-                    f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
-
-        text = super()._get_text()
-
-        #--- Convert comments, footnotes, and endnotes.
-        # This is done once for the entire document because of the document-wide note numbering.
-        if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
-            self._noteCounter = 0
-            self._noteNumber = 0
-            authorName = escape(self.novel.authorName or '').replace('\\', '\\\\')
-            simpleComment = (f'<office:annotation><dc:creator>{authorName}'
-                             '</dc:creator><text:p>\\1</text:p></office:annotation>'
-                             )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
-        return text
+    def _get_sceneMapping(self, scId, sceneNumber, wordsTotal, lettersTotal):
+        """Return a mapping dictionary for a scene section.
+        
+        Positional arguments:
+            scId: str -- scene ID.
+            sceneNumber: int -- scene number to be displayed.
+            wordsTotal: int -- accumulated wordcount.
+            lettersTotal: int -- accumulated lettercount.
+        
+        Convert the comments, footnotes, and endnotes of the scene.
+        Extends the superclass method.
+        """
+        sceneMapping = super()._get_sceneMapping(scId, sceneNumber, wordsTotal, lettersTotal)
+        sceneMapping['SceneContent'] = self._convert_notes(sceneMapping['SceneContent'])
+        return sceneMapping
 
+    def _get_text(self):
+        """Call all processing methods.
+        
+        Return a string to be written to the output file.
+        Restart the document-wide note numbering.
+        Extends the superclass method.
+        """
+        self._noteCounter = 0
+        self._noteNumber = 0
+        return super()._get_text()
-- 
2.43.0


From 040d63cae940676b2dfb89dbe60fd525262b69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 43/63] fix: quotations within markup reaching across lines
 lost their style on export

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 ++--
 src/pywriter/odt_w/odt_w_proof.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index f0dda96..6449469 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -84,8 +84,8 @@ class OdtWFormatted(OdtWriter):
                 for line in lines:
                     for tag in tags:
                         if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                            if line.startswith('> '):
+                                line = f'> {opening[tag]}{line[2:]}'
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 66cd1a8..6204fa7 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -89,8 +89,8 @@ class OdtWProof(OdtWFormatted):
             for line in lines:
                 for tag in tags:
                     if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                        if line.startswith('> '):
+                            line = f'> {opening[tag]}{line[2:]}'
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
-- 
2.43.0


From 0df094b1fb1885b31690edad1e2c14cfa6294347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 44/63] fix: text after a second comment was taken for a
 quotation mark on export

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 6449469..7526c3d 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -185,7 +185,7 @@ class OdtWFormatted(OdtWriter):
                          )
             for quotMark in quotMarks:
                 text = text.replace(quotMark, '"Quotations">')
-            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>.+?\<\/office\:annotation\>)\&gt\; ',
+            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>((?!\<\/office\:annotation\>).)+\<\/office\:annotation\>)\&gt\; ',
                           '"Quotations">\\1', text)
         return text
 
-- 
2.43.0


From 960c4f44f729e6259eb2e214cdbb5899c4ab960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 45/63] fix: languages added after the project got its language
 variables were not exported

---
 src/pywriter/odt_w/odt_w_formatted.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 7526c3d..ad2f238 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -39,8 +39,11 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        languages = self.novel.languages or []
+        self.novel.get_languages()
+        for language in languages:
+            if not language in self.novel.languages:
+                self.novel.languages.append(language)
         return super().write()
 
     def _convert_from_yw(self, text, quick=False):
-- 
2.43.0


From 92ca1ba2b8d67c2ff8cbcbfabae20c05e1044c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 46/63] fix: language codes in quotation marks made exported
 documents unreadable

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 ++
 src/pywriter/odt_w/odt_w_proof.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index ad2f238..0075eca 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -139,6 +139,8 @@ class OdtWFormatted(OdtWriter):
             for i, language in enumerate(self.novel.languages, 1):
                 try:
                     lngCode, ctrCode = language.split('-')
+                    if not (lngCode.isalnum() and ctrCode.isalnum()):
+                        raise ValueError
                 except:
                     # The language code may come without a country code.
                     lngCode = language if language.isalpha() else 'zxx'
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 6204fa7..1111e09 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -128,6 +128,8 @@ class OdtWProof(OdtWFormatted):
         for i, language in enumerate(self.novel.languages, 1):
             try:
                 lngCode, ctrCode = language.split('-')
+                if not (lngCode.isalnum() and ctrCode.isalnum()):
+                    raise ValueError
             except:
                 # The language code may come without a country code.
                 lngCode = language if language.isalpha() else 'zxx'
-- 
2.43.0


From 695ffb8da95c60673ce45c45c81c633d9154169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 47/63] fix: overlapping markup made exported documents
 unreadable or swapped the formats

---
 src/pywriter/odt_w/odt_w_formatted.py | 85 ++++++++++++++++++++++++++-
 src/pywriter/odt_w/odt_w_proof.py     |  2 +-
 2 files changed, 85 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 0075eca..a203f0a 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -99,7 +99,7 @@ class OdtWFormatted(OdtWriter):
                             line = f'{opening[tag]}{line}'
                         line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                     newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                text = '\n'.join(self._nest_markup(newlines, tags)).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -126,6 +126,89 @@ class OdtWFormatted(OdtWriter):
         return re.sub(r'\/\*(.*?)\*\/', lambda match: (f'<office:annotation><dc:creator>{authorName}</dc:creator>'
                                                        f'<text:p>{match.group(1)}</text:p></office:annotation>'), text, flags=re.DOTALL)
 
+    def _nest_markup(self, lines, tags):
+        """Return a list of lines with properly nested markup.
+        
+        Positional arguments:
+            lines -- list of strings containing yw7 markup.
+            tags -- list of the markup tags.
+        
+        Divide markup that overlaps other markup, or the beginning or the end of a comment.
+        """
+
+        def get_tag(token, prefix):
+            """Return the tag if token is markup starting with prefix."""
+            if token.startswith(prefix) and token[len(prefix):-1] in tags:
+                return token[len(prefix):-1]
+
+        markup = '|'.join(re.escape(f'[{tag}]') + '|' + re.escape(f'[/{tag}]') for tag in tags)
+        outside = re.compile(rf'\/\* *@[ef]n\** |\/\*|{markup}')
+        inside = re.compile(rf'\*\/|{markup}')
+        newlines = []
+        inComment = False
+        for line in lines:
+
+            # Split the line at markup and comment delimiters.
+            # Find the comment delimiters where markup is to be divided.
+            tokens = []
+            dividers = []
+            start = None
+            opened = []
+            isCrossed = inComment
+            position = 0
+            m = (inside if inComment else outside).search(line)
+            while m:
+                token = m.group()
+                tokens.extend([line[position:m.start()], token])
+                position = m.end()
+                if token == '*/':
+                    if opened or isCrossed:
+                        dividers.extend([start, len(tokens) - 1])
+                    inComment = False
+                    start = None
+                elif token.startswith('/*'):
+                    inComment = True
+                    start = len(tokens) - 1
+                    opened = []
+                    isCrossed = False
+                elif inComment:
+                    if get_tag(token, '['):
+                        opened.append(get_tag(token, '['))
+                    elif get_tag(token, '[/') in opened:
+                        opened.remove(get_tag(token, '[/'))
+                    else:
+                        isCrossed = True
+                m = (inside if inComment else outside).search(line, position)
+            tokens.append(line[position:])
+            dividers.append(start)
+
+            # Divide overlapping markup.
+            opened = []
+            newTokens = []
+            for i, token in enumerate(tokens):
+                if get_tag(token, '[/'):
+                    tag = get_tag(token, '[/')
+                    if tag in opened:
+                        j = len(opened) - opened[::-1].index(tag)
+                        newTokens.extend(f'[/{tag}]' for tag in reversed(opened[j:]))
+                        newTokens.append(token)
+                        newTokens.extend(f'[{tag}]' for tag in opened[j:])
+                        del opened[j - 1]
+                elif i in dividers:
+                    newTokens.extend(f'[/{tag}]' for tag in reversed(opened))
+                    newTokens.append(token)
+                    newTokens.extend(f'[{tag}]' for tag in opened)
+                else:
+                    if get_tag(token, '['):
+                        opened.append(get_tag(token, '['))
+                    newTokens.append(token)
+            newTokens.extend(f'[/{tag}]' for tag in reversed(opened))
+            line = ''.join(newTokens)
+            for tag in tags:
+                line = line.replace(f'[{tag}][/{tag}]', '')
+            newlines.append(line)
+        return newlines
+
     def _get_fileHeaderMapping(self):
         """Return a mapping dictionary for the project section.
         
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 1111e09..5505e6b 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -101,7 +101,7 @@ class OdtWProof(OdtWFormatted):
                         line = f'{opening[tag]}{line}'
                     line = line.replace(f'{opening[tag]}{closing[tag]}', '')
                 newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            text = '\n'.join(self._nest_markup(newlines, tags)).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From dbc6024e8d1fec0efc641f96b6b36f4635058aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 48/63] fix: exports failed if a scene of the project had no
 status

---
 src/pywriter/file/file_export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 68d5343..5b4dab7 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -502,6 +502,12 @@ class FileExport(File):
             minutes = ''
         duration = f'{days}{hours}{minutes}'
 
+        #--- Scene status.
+        if self.novel.scenes[scId].status:
+            status = Scene.STATUS[self.novel.scenes[scId].status]
+        else:
+            status = ''
+
         sceneMapping = dict(
             ID=scId,
             SceneNumber=sceneNumber,
@@ -511,7 +517,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=status,
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
-- 
2.43.0


From af46d55c0df490001b2766e1f62e77bd880549eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 49/63] fix: a power failure could take a saved project
 together with its backup

---
 src/pywriter/yw/yw7_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 9a49ead..47cd8ec 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1718,6 +1718,8 @@ class Yw7File(File):
             with open(ywProject.filePath, 'x', encoding='utf-8') as f:
                 created = True
                 f.write(text)
+                f.flush()
+                os.fsync(f.fileno())
         except:
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
-- 
2.43.0


From 4d7ed8eaa9907ed43a46e34509f0197d2011c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 50/63] fix: a power failure could take an exported document
 together with its backup

---
 src/pywriter/odf/odf_file.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 57ef0b3..b403604 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -87,11 +87,14 @@ class OdfFile(FileExport):
             else:
                 backedUp = True
         try:
-            with zipfile.ZipFile(self.filePath, 'x') as odfTarget:
+            with open(self.filePath, 'xb') as f:
                 created = True
-                os.chdir(self._tempDir)
-                for file in self._ODF_COMPONENTS:
-                    odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
+                with zipfile.ZipFile(f, 'w') as odfTarget:
+                    os.chdir(self._tempDir)
+                    for file in self._ODF_COMPONENTS:
+                        odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
+                f.flush()
+                os.fsync(f.fileno())
         except:
             os.chdir(workdir)
             if backedUp:
-- 
2.43.0


From d56a22be9c6e47b44570ba1969603e40ea1612ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 51/63] fix: a power failure could empty the configuration file

---
 src/pywriter/config/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index d243d8e..9d1066a 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -103,6 +103,8 @@ class Configuration:
         try:
             with open(tempFile, 'w', encoding='utf-8') as f:
                 config.write(f)
+                f.flush()
+                os.fsync(f.fileno())
             os.replace(tempFile, iniFile)
         except:
             if os.path.isfile(tempFile):
-- 
2.43.0


From 09b0611ee03d1a7b913a65cb2c9de34d8969ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:37 +0000
Subject: [PATCH 52/63] fix: exported data files could be lost or left
 incomplete

---
 src/pywriter/yw/data_files.py | 55 ++++++++---------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/src/pywriter/yw/data_files.py b/src/pywriter/yw/data_files.py
index b369608..d8fa559 100644
--- a/src/pywriter/yw/data_files.py
+++ b/src/pywriter/yw/data_files.py
@@ -20,24 +20,6 @@ class DataFiles(Yw7File):
     DESCRIPTION = _('yWriter XML data files')
     EXTENSION = '.xml'
 
-    def _postprocess_xml_file(self, filePath):
-        '''Postprocess three xml files created by ElementTree.
-        
-        Positional argument:
-            filePath: str -- path to .yw7 xml file.
-            
-        Generate the xml file paths from the .yw7 path. 
-        Read, postprocess and write the characters, locations, and items xml files.        
-        Extends the superclass method.
-        '''
-        path, __ = os.path.splitext(filePath)
-        characterPath = f'{path}_Characters.xml'
-        super()._postprocess_xml_file(characterPath)
-        locationPath = f'{path}_Locations.xml'
-        super()._postprocess_xml_file(locationPath)
-        itemPath = f'{path}_Items.xml'
-        super()._postprocess_xml_file(itemPath)
-
     def _write_element_tree(self, ywProject):
         """Save the characters/locations/items subtrees as separate xml files
         
@@ -46,31 +28,18 @@ class DataFiles(Yw7File):
             
         Extract the characters/locations/items xml subtrees from a yWriter project.
         Generate the xml file paths from the .yw7 path and write each subtree to an xml file.
+        If a file cannot be written completely, restore its previous version.
         Raise the "Error" exception in case of error. 
+        Extends the superclass method.
         """
         path, __ = os.path.splitext(ywProject.filePath)
-        characterPath = f'{path}_Characters.xml'
-        characterSubtree = ywProject.tree.find('CHARACTERS')
-        characterTree = ET.ElementTree(characterSubtree)
-        try:
-            characterTree.write(characterPath, xml_declaration=False, encoding='utf-8')
-        except(PermissionError):
-            raise Error(f'{_("File is write protected")}: "{norm_path(characterPath)}".')
-
-        locationPath = f'{path}_Locations.xml'
-        locationSubtree = ywProject.tree.find('LOCATIONS')
-        locationTree = ET.ElementTree(locationSubtree)
-        try:
-            locationTree.write(locationPath, xml_declaration=False, encoding='utf-8')
-        except(PermissionError):
-            raise Error(f'{_("File is write protected")}: "{norm_path(locationPath)}".')
-
-        itemPath = f'{path}_Items.xml'
-        itemSubtree = ywProject.tree.find('ITEMS')
-        itemTree = ET.ElementTree(itemSubtree)
-        try:
-            itemTree.write(itemPath, xml_declaration=False, encoding='utf-8')
-        except(PermissionError):
-            raise Error(f'{_("File is write protected")}: "{norm_path(itemPath)}".')
-
-        self._postprocess_xml_file(ywProject.filePath)
+        for tag, suffix in (
+                ('CHARACTERS', 'Characters'),
+                ('LOCATIONS', 'Locations'),
+                ('ITEMS', 'Items'),
+            ):
+            dataFile = Yw7File('')
+            dataFile._filePath = f'{path}_{suffix}.xml'
+            # set directly, because the property accepts project files only
+            dataFile.tree = ET.ElementTree(ywProject.tree.find(tag))
+            super()._write_element_tree(dataFile)
-- 
2.43.0


From 20b4c326af3e1a06b2a3552db04fc80ed4bc9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 53/63] fix: msgfmt misread the first message if it is not
 plain ASCII

---
 src/msgfmt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..5bea636 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -155,6 +155,8 @@ def make(filename, outfile):
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
                         encoding = charset
+                        # this line, too, is in the declared encoding
+                        l = lines[lno - 1].decode(encoding)
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0


From 40038520b3bdffc285b6eb79a515412ed5e70979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 54/63] fix: a failed attempt to write a new translation file
 left an incomplete one

---
 src/translations.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/translations.py b/src/translations.py
index e4da76c..6fd5279 100644
--- a/src/translations.py
+++ b/src/translations.py
@@ -130,8 +130,10 @@ class Translations:
             backedUp = True
         else:
             backedUp = False
+        created = False
         try:
-            with open(self.lngFile, 'w', encoding='utf-8') as f:
+            with open(self.lngFile, 'x', encoding='utf-8') as f:
+                created = True
                 print(f'Writing "{self.lngFile}" ...')
                 msgDict = {}
                 # dict for non-empty entries
@@ -145,6 +147,8 @@ class Translations:
         except Exception as ex:
             if backedUp:
                 os.replace(f'{self.lngFile}.bak', self.lngFile)
+            elif created:
+                os.remove(self.lngFile)
             print(f'ERROR: Cannot write file: "{self.lngFile}".\n{ex}')
             return False
 
@@ -216,12 +220,16 @@ class Translations:
             backedUp = True
         else:
             backedUp = False
+        created = False
         try:
-            with open(self.poFile, 'w', encoding='utf-8') as f:
+            with open(self.poFile, 'x', encoding='utf-8') as f:
+                created = True
                 f.writelines(lines)
         except Exception as ex:
             if backedUp:
                 os.replace(f'{self.poFile}.bak', self.poFile)
+            elif created:
+                os.remove(self.poFile)
             print(f'ERROR: Cannot write file: "{self.poFile}".\n{ex}')
             return False
 
-- 
2.43.0


From 26f03dfe549c200f245be2a85f52c458d6fe6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 55/63] fix: translations got lost if the dictionary could not
 be read or written

---
 src/translations.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/translations.py b/src/translations.py
index 6fd5279..e53f7f4 100644
--- a/src/translations.py
+++ b/src/translations.py
@@ -261,11 +261,16 @@ def main(languageCode, app='', appVersion='unknown', potFile='messages.pot', jso
     """
     translations = Translations(languageCode, app, appVersion, potFile)
     if json:
-        translations.read_json()
+        if not translations.read_json() and os.path.isfile(translations.lngFile):
+            # do not overwrite a dictionary that cannot be read
+            return False
+
     translations.read_pot()
     translations.read_po()
-    if json:
-        translations.write_json()
+    if json and not translations.write_json():
+        # the '.po' file might contain translations that are nowhere else
+        return False
+
     if translations.write_po():
         return True
     else:
-- 
2.43.0


From 9ba233ef69f59dfa9c93ac90255d652c78f9b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 56/63] fix: a failed attempt to write a message template left
 an incomplete one

---
 src/pgettext.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..a558801 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -64,9 +64,17 @@ class PotFile:
             message = message.replace('"', '\\"')
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
-        with open(self.filePath, 'w', encoding='utf-8') as f:
-            f.write(potText)
-            print(f'\nPot file "{self.filePath}" written.')
+        created = False
+        try:
+            with open(self.filePath, 'w', encoding='utf-8') as f:
+                created = True
+                f.write(potText)
+        except:
+            if created:
+                os.remove(self.filePath)
+            raise
+
+        print(f'\nPot file "{self.filePath}" written.')
 
     def get_messages(self, text):
         result = []
-- 
2.43.0


From 5c05b75c1234c074746ff8d17633662ae642b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:38 +0000
Subject: [PATCH 57/63] fix: custom fields of project notes were deleted when
 saving

---
 src/pywriter/yw/yw7_file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 47cd8ec..776ae41 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -691,6 +691,15 @@ class Yw7File(File):
             if projectNote.desc is not None:
                 ET.SubElement(xmlProjectnote, 'Desc').text = projectNote.desc
 
+            #--- Write project note custom fields.
+            xmlProjectnoteFields = None
+            for field in self.PNT_KWVAR:
+                if projectNote.kwVar.get(field, None):
+                    if xmlProjectnoteFields is None:
+                        xmlProjectnoteFields = ET.SubElement(xmlProjectnote, 'Fields')
+                    fieldEntry = self._convert_from_yw(projectNote.kwVar[field])
+                    ET.SubElement(xmlProjectnoteFields, field).text = fieldEntry
+
         def add_projectvariable(title, desc, tags):
             # Note:
             # prjVars, xmlProjectvars are caller's variables
-- 
2.43.0


From 00a1c9e17487e4336b1cceea385694828bf17417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 58/63] fix: removing the custom fields failed for project
 notes and missed those of the scenes

---
 src/pywriter/yw/yw7_purge.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..9e342c8 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,13 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        # The Yw7File.write() method sets keyword variables from these.
+        if prjFile.novel.scenes[scId].scnArcs:
+            prjFile.novel.scenes[scId].scnArcs = None
+            hasChanged = True
+        if prjFile.novel.scenes[scId].scnMode:
+            prjFile.novel.scenes[scId].scnMode = 0
+            hasChanged = True
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
@@ -52,8 +59,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From 1c9ef341001e772bdad94fec5aa36ac8be458ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:53 +0000
Subject: [PATCH 59/63] fix: the inliner could not find the modules on POSIX
 systems

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1caa6fb..a737b78 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -62,7 +62,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 if 'import' in line:
                     importModule = re.match(r'from (.+?) import.+', line)
                     if (importModule is not None) and (package in importModule.group(1)):
-                        packageName = re.sub(r'\.', r'\/', importModule.group(1))
+                        packageName = re.sub(r'\.', '/', importModule.group(1))
                         moduleName = f'{packagePath}{packageName}'
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 12510dda2db40f8b9d37c26fa7b2ca0300acde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 60/63] fix: the inliner removed lines from multi-line strings

---
 src/inliner.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/inliner.py b/src/inliner.py
index a737b78..1c5539f 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -26,11 +26,19 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 copyfile(file, target)
         lines = f.readlines()
         inDocstring = False
+        inString = False
         # document parsing always starts in the header
         for line in lines:
             if line.startswith('# do_not_inline'):
                 break
 
+            if inString:
+                # Keep the lines of a multi-line string as they are.
+                text = f'{text}{line}'
+                if line.count("'''") % 2:
+                    inString = False
+                continue
+
             if line.count('"""') == 2:
                 # Discard single-line docstring.
                 continue
@@ -54,6 +62,9 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 else:
                     text = f'{text}{line}'
             elif not inDocstring:
+                if line.count("'''") % 2:
+                    # Beginning of a multi-line string
+                    inString = True
                 if package in file:
                     if 'main()' in line:
                         return(text)
-- 
2.43.0


From 28a5f826c5aed14418d52446b0b83d882dc46ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 61/63] fix: the inliner removed imports within functions

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1c5539f..39c7125 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -79,7 +79,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                             processedModules.append(moduleName)
                             text = inline_module(
                                 f'{moduleName}.py', package, packagePath, text, processedModules, copyPyWriter)
-                    elif line.lstrip().startswith('import'):
+                    elif line.startswith('import '):
                         moduleName = line.replace('import ', '').rstrip()
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 190a3a8a6370f4bf93dac568ae87d6053e335de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 62/63] fix: a failed build left an incomplete script or an
 incomplete copy of a module

---
 src/inliner.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/inliner.py b/src/inliner.py
index 39c7125..461df9d 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -23,7 +23,14 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
             targetDir = os.path.split(target)[0]
             os.makedirs(targetDir, exist_ok=True)
             if not os.path.isfile(target):
-                copyfile(file, target)
+                try:
+                    copyfile(file, f'{target}.tmp')
+                    os.replace(f'{target}.tmp', target)
+                except:
+                    if os.path.isfile(f'{target}.tmp'):
+                        os.remove(f'{target}.tmp')
+                    raise
+
         lines = f.readlines()
         inDocstring = False
         inString = False
@@ -95,7 +102,15 @@ def run(sourceFile, targetFile, package, packagePath, copyPyWriter=False):
     text = ''
     processedModules = []
     text = inline_module(sourceFile, package, packagePath, text, processedModules, copyPyWriter)
-    with open(targetFile, 'w', encoding='utf-8') as f:
-        print(f'Writing "{targetFile}"...\n')
-        f.write(text)
+    tempFile = f'{targetFile}.tmp'
+    try:
+        with open(tempFile, 'w', encoding='utf-8') as f:
+            print(f'Writing "{targetFile}"...\n')
+            f.write(text)
+        os.replace(tempFile, targetFile)
+    except:
+        if os.path.isfile(tempFile):
+            os.remove(tempFile)
+        raise
+
 
-- 
2.43.0


From cf2f87d9e125e34a5b9a195dca3dcc8b485f3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:30 +0000
Subject: [PATCH 63/63] fix: msgfmt dropped the entry behind a fuzzy one and
 gave an entry the context of the previous one

---
 src/msgfmt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 5bea636..8f379ee 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -143,6 +143,7 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
@@ -157,6 +158,9 @@ def make(filename, outfile):
                         encoding = charset
                         # this line, too, is in the declared encoding
                         l = lines[lno - 1].decode(encoding)
+                # the marks and the context were those of the entry output
+                msgctxt = None
+                fuzzy = 0
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0

