From fcdbdfd1184c246fa542a3280c18c7ed649b4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 01/49] fix: do not share the common overlays' backing array
 between files

---
 internal/instructions/instructions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 0fcd18b..5ab7e8c 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -112,7 +112,9 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 // addCommonOverlays, takes all common overlays and adds them to each yamlFile entry.
 func (i *Instructions) addCommonOverlays() {
 	for _, yf := range i.YamlFiles {
-		yf.Overlays = append(i.CommonOverlays, yf.Overlays...)
+		// copy first: appending to CommonOverlays itself could share its spare capacity between files
+		common := append([]*overlays.Overlay{}, i.CommonOverlays...)
+		yf.Overlays = append(common, yf.Overlays...)
 	}
 }
 
-- 
2.43.0


From bf10f4968c544a7517d507afc3334df3da87a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 02/49] fix: expand a directory entry in place so that listed
 order is kept

---
 internal/instructions/yamlfile.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index e06fd3a..352f58b 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -133,6 +133,8 @@ func (yfs *YamlFiles) expandDirectories() error {
 				return err
 			}
 
+			expanded := make([]*YamlFile, 0, len(paths)+len(y)-i)
+
 			for _, p := range paths {
 				sp := &YamlFile{
 					Name:       y[i].Name,
@@ -142,11 +144,12 @@ func (yfs *YamlFiles) expandDirectories() error {
 					OutputPath: y[i].OutputPath,
 				}
 
-				y = append(y, sp)
+				expanded = append(expanded, sp)
 			}
 
-			y = append(y[:i], y[i+1:]...)
-			i--
+			// the files take the place of the directory entry, so that the listed order is kept
+			y = append(y[:i], append(expanded, y[i+1:]...)...)
+			i += len(paths) - 1
 		}
 	}
 
-- 
2.43.0


From 1a4b8162909108982286d4f6232ee8fbf3eb4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 03/49] fix: do not write to an overlay shared by concurrently
 processed files

---
 internal/overlays/onmissing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index f5607fe..7a5d427 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -28,9 +28,12 @@ type OnMissing struct {
 }
 
 func (o *Overlay) onMissing(n *yaml.Node) error {
-	if o.OnMissing.Action == actions.Default {
+	// the overlay may be shared between concurrently processed files, so it must not be modified here
+	action := o.OnMissing.Action
+
+	if action == actions.Default {
 		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {
-			o.OnMissing.Action = actions.Inject
+			action = actions.Inject
 		}
 	}
 
@@ -39,7 +42,7 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 	// we need to then check if each inject path is valid (does it exist)
 	// if we had an inject path(s) then we inject the value to those locations
 	// if we didn't have an inject path we have an implicit onMissing: ignore and we put out a warning if not stdout option to terminal
-	switch o.OnMissing.Action {
+	switch action {
 	case actions.Inject:
 		return o.handleInjectPath(n)
 	default:
-- 
2.43.0


From 88a686184538228ccb595e45489eb2b73fb3e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 04/49] fix: output files in listed order and only after all
 overlays succeeded

---
 internal/instructions/execute.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/internal/instructions/execute.go b/internal/instructions/execute.go
index 158c583..539d1fc 100644
--- a/internal/instructions/execute.go
+++ b/internal/instructions/execute.go
@@ -16,7 +16,7 @@ var log = logging.MustGetLogger("instructions") //nolint:gochecknoglobals
 
 // Execute takes in configuratation options and executes overlays on an instruction file specified.
 func Execute(cfg *Config) error {
-	eg, ctx := errgroup.WithContext(context.Background())
+	eg, _ := errgroup.WithContext(context.Background())
 
 	instructions, err := cfg.GetInstructions()
 	if err != nil {
@@ -40,34 +40,24 @@ func Execute(cfg *Config) error {
 					return fmt.Errorf("%w", err)
 				}
 
-				select {
-				case pChan <- yf:
-					return nil
-				case <-ctx.Done():
-					if err := ctx.Err(); err != nil {
-						return fmt.Errorf("%w", err)
-					}
-
-					return nil
-				}
+				return nil
 			},
 		)
 	}
 
-	go func() {
-		eg.Wait() //nolint:errcheck // we use this to gracefully close the channel and receive the err later
-		close(pChan)
-	}()
-
-	if err := PostProcessHandler(cfg, pChan); err != nil {
-		return err
-	}
-
+	// nothing is output unless every overlay was applied successfully
 	if err := eg.Wait(); err != nil {
 		return fmt.Errorf("%w", err)
 	}
 
-	return nil
+	// output in the order the files are listed, not in the order they happened to finish
+	for _, yf := range instructions.YamlFiles {
+		pChan <- yf
+	}
+
+	close(pChan)
+
+	return PostProcessHandler(cfg, pChan)
 }
 
 // PostProcessHandler waits for YamlFile objects and preforms post overlay tasks like rendering,
-- 
2.43.0


From 86c7701c902f34f849f374ba2a53ffdfc3c086a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 05/49] fix: start every output with a document separator even
 if its first document was deleted

---
 internal/instructions/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index b2d5b59..432134b 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -117,12 +117,12 @@ func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 
 	ye.SetIndent(viper.GetInt("indentLevel"))
 
-	for i, node := range nodes {
+	for _, node := range nodes {
 		if len(node.Content) == 0 {
 			continue
 		}
 
-		if i == 0 {
+		if !fileWritten {
 			output.WriteString("---\n")
 		}
 
-- 
2.43.0


From 449fe46475788b474aa723367322f1573039b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 06/49] fix: do not panic when injecting into a deleted
 document

---
 internal/actions/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 372e647..12c376b 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -55,7 +55,7 @@ func merge(o, n *yaml.Node, keyName ...string) error {
 }
 
 func mergeDocument(o, n *yaml.Node) error {
-	if o.Content != nil && n.Content != nil {
+	if len(o.Content) != 0 && len(n.Content) != 0 {
 		mergeComments(o, n, o.Value)
 
 		if err := merge(o.Content[0], n.Content[0], o.Value); err != nil {
-- 
2.43.0


From 7b9fae270d117939ea34a43367b065b56351067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 07/49] fix: injecting a comment no longer removes the comments
 at other positions

---
 internal/actions/merge.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 12c376b..993b9d7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -186,16 +186,15 @@ func mergeComments(o, n *yaml.Node, values ...string) {
 		keyName = values[0]
 	}
 
-	switch {
-	case n.HeadComment != "":
+	if n.HeadComment != "" {
 		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.LineComment != "":
+	if n.LineComment != "" {
 		o.LineComment = format(n.LineComment, value, lc, hc, fc, keyName)
+	}
 
-		fallthrough
-	case n.FootComment != "":
+	if n.FootComment != "" {
 		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)
 	}
 }
-- 
2.43.0


From 5ca2248c40f6e163069338d87baf327c20d94900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 08/49] fix: make the sprig functions available to instructions
 templates

---
 internal/instructions/template.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/template.go b/internal/instructions/template.go
index 815f730..64a4002 100644
--- a/internal/instructions/template.go
+++ b/internal/instructions/template.go
@@ -7,19 +7,22 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"path"
 	"text/template"
 
 	"github.com/Masterminds/sprig/v3"
 )
 
 func renderInstructionsTemplate(fileName string, values interface{}) (io.Reader, error) {
-	tpl, err := template.ParseFiles(fileName)
+	// functions have to be known before the template is parsed
+	tpl, err := template.New(path.Base(fileName)).
+		Funcs(template.FuncMap(sprig.FuncMap())).
+		Option("missingkey=zero").
+		ParseFiles(fileName)
 	if err != nil {
 		return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
 	}
 
-	tpl = tpl.Funcs(template.FuncMap(sprig.FuncMap())).Option("missingkey=zero")
-
 	var b bytes.Buffer
 
 	if err := tpl.Execute(&b, values); err != nil {
-- 
2.43.0


From 15e8e78a12feda4f8e542cb1bc39bcc6bff2f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 09/49] fix: read settings from the YOT_* environment variables

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 8eaa323..7f2eca6 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -47,7 +47,7 @@ func New() *Root {
 
 func (r *Root) initConfig() {
 	for k, v := range envMap() {
-		if err := viper.BindEnv(k, v); err != nil {
+		if err := viper.BindEnv(v, k); err != nil {
 			r.Log.Fatal(err)
 		}
 	}
-- 
2.43.0


From 8505a5e7b29d9f1ce355981a9c1da18b4c37cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 10/49] fix: clean input paths so that no output can land on a
 source file

---
 internal/instructions/yamlfile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 352f58b..3cc34e7 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -122,6 +122,9 @@ func (yfs *YamlFiles) expandDirectories() error {
 			y[i].Path = path.Join(viper.GetString("instructionsDir"), y[i].Path)
 		}
 
+		// one spelling per file, for finding duplicates and the path relative to the common directory
+		y[i].Path = path.Clean(y[i].Path)
+
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-- 
2.43.0


From a0ba7828e5180b85b20077a95627c5f3513bbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 11/49] fix: a single file in the root directory is not written
 onto itself

---
 internal/instructions/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 454c8be..81f6fad 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 )
 
 func ReadStream(fileName string) (io.Reader, error) {
@@ -38,7 +39,8 @@ func GetCommonPrefix(sep byte, paths ...string) string {
 	case 0:
 		return ""
 	case 1:
-		return path.Dir(path.Clean(paths[0])) + string(os.PathSeparator)
+		// the root directory already ends with the separator
+		return strings.TrimSuffix(path.Dir(path.Clean(paths[0])), string(os.PathSeparator)) + string(os.PathSeparator)
 	}
 
 	c := path.Clean(paths[0]) + string(sep)
-- 
2.43.0


From 5a7f4373db63da4b0efe9741ebb243e84d63dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 12/49] fix: keep sub directories below a directory entry's
 outputPath

---
 internal/instructions/yamlfile.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 3cc34e7..04fab24 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/spf13/viper"
 	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/overlays"
@@ -139,12 +140,24 @@ func (yfs *YamlFiles) expandDirectories() error {
 			expanded := make([]*YamlFile, 0, len(paths)+len(y)-i)
 
 			for _, p := range paths {
+				outputPath := y[i].OutputPath
+
+				// keep the sub directories, files of the same name must not overwrite each other
+				if outputPath != "" {
+					rel, err := filepath.Rel(y[i].Path, p)
+					if err != nil {
+						return fmt.Errorf("cannot get relative path of %s, %w", p, err)
+					}
+
+					outputPath = path.Join(outputPath, rel)
+				}
+
 				sp := &YamlFile{
 					Name:       y[i].Name,
 					Overlays:   y[i].Overlays,
 					Documents:  y[i].Documents,
 					Path:       p,
-					OutputPath: y[i].OutputPath,
+					OutputPath: outputPath,
 				}
 
 				expanded = append(expanded, sp)
-- 
2.43.0


From 4fd5a32e521baa7ea668514eaf1f461961f5e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 13/49] fix: --remove-comments also removes the comments of the
 document itself

---
 internal/instructions/yamlfile.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 04fab24..ca9c31d 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -199,15 +199,11 @@ func (yfs *YamlFiles) mergeDuplicates() {
 
 // removeCommentsFromNode will traverse the tree of yaml nodes and remove all comments.
 func removeCommentsFromNode(node *yaml.Node) {
-	if node.Content == nil {
-		return
-	}
+	node.HeadComment = ""
+	node.LineComment = ""
+	node.FootComment = ""
 
 	for _, child := range node.Content {
-		child.HeadComment = ""
-		child.LineComment = ""
-		child.FootComment = ""
-
 		removeCommentsFromNode(child)
 	}
 }
-- 
2.43.0


From 8afb8ad6a4b46b388750aa7c748334ee49aaa4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 14/49] fix: onMissing does not inject for delete and combine
 overlays

---
 internal/overlays/onmissing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 7a5d427..6e16825 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -37,6 +37,11 @@ func (o *Overlay) onMissing(n *yaml.Node) error {
 		}
 	}
 
+	// onMissing only applies to merge and replace
+	if o.Action == actions.Delete || o.Action == actions.Combine {
+		return nil
+	}
+
 	// check if the query has a match
 	// if no match then we require an inject path
 	// we need to then check if each inject path is valid (does it exist)
-- 
2.43.0


From f1e2bad836cd1f319837388f438f561b94cd9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 15/49] fix: accept the documented output style singleQuote

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index ed05565..6658e8d 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -49,7 +49,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 		NormalStyle:       {"normal", "n"},
 		TaggedStyle:       {"tagged", "tag", "t"},
 		DoubleQuotedStyle: {"doubleQuoted", "doubleQuote", "double", "dq"},
-		SingleQuotedStyle: {"singleQuoted", "singleQoute", "single", "sq"},
+		SingleQuotedStyle: {"singleQuoted", "singleQuote", "singleQoute", "single", "sq"},
 		LiteralStyle:      {"literal", "l"},
 		FoldedStyle:       {"folded", "fold", "fo"},
 		FlowStyle:         {"flow", "fl"},
-- 
2.43.0


From be1df9c696ac0e3975b169ac3afb9d5da36f4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 16/49] fix: report a negative indent level instead of
 panicking

---
 internal/instructions/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 432134b..c482ce9 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -5,6 +5,7 @@ package instructions
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -17,6 +18,9 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ErrNegativeIndent occurs when the indent level is less than zero.
+var ErrNegativeIndent = errors.New("indent level must not be negative")
+
 // Config contains configuration options used with instruction files.
 type Config struct {
 	LogLevel               logging.Level
@@ -103,6 +107,10 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 func (cfg *Config) encodeNodes(nodes []*yaml.Node) (*bytes.Buffer, error) {
 	var fileWritten bool
 
+	if viper.GetInt("indentLevel") < 0 {
+		return nil, fmt.Errorf("%w: %d", ErrNegativeIndent, viper.GetInt("indentLevel"))
+	}
+
 	output := new(bytes.Buffer)
 
 	ye := yaml.NewEncoder(output)
-- 
2.43.0


From e47ce66d3f450b3ce130226b04c4e607d29bde77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 17/49] fix: combine integers exactly, in every YAML notation,
 or report an error

---
 internal/actions/combine.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7064c7b..7214bc2 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -6,7 +6,9 @@ package actions
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 )
@@ -23,17 +25,21 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	switch originalValue.Tag {
 	case "!!int":
-		o, err := strconv.Atoi(originalValue.Value)
+		o, err := parseInt(originalValue.Value)
 		if err != nil {
 			return fmt.Errorf("failed to %s to int for merging: %w", originalValue.Value, err)
 		}
 
-		n, err := strconv.Atoi(newValue.Value)
+		n, err := parseInt(newValue.Value)
 		if err != nil {
 			return fmt.Errorf("failed to %s to int for merging: %w", newValue.Value, err)
 		}
 
-		originalValue.Value = strconv.Itoa(o + n)
+		if (n > 0 && o > math.MaxInt64-n) || (n < 0 && o < math.MinInt64-n) {
+			return fmt.Errorf("failed to combine %s and %s: %w", originalValue.Value, newValue.Value, strconv.ErrRange)
+		}
+
+		originalValue.Value = strconv.FormatInt(o+n, 10)
 
 		return nil
 
@@ -57,3 +63,8 @@ func CombineNode(originalValue, newValue *yaml.Node) error {
 
 	return nil
 }
+
+// parseInt reads an integer in any of the notations YAML has for them.
+func parseInt(s string) (int64, error) {
+	return strconv.ParseInt(strings.ReplaceAll(s, "_", ""), 0, 64)
+}
-- 
2.43.0


From c1cb82e1d17ce1f321f2f64695a445c09ac2322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 18/49] fix: compare documentQuery values as data, whatever
 their anchors

---
 internal/overlays/documentquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index 9609f86..d492e04 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -41,7 +41,7 @@ func (dq DocumentQueries) checkQueries(node *yaml.Node) bool {
 }
 
 func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
-	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style")
+	compareOptions := cmpopts.IgnoreFields(yaml.Node{}, "HeadComment", "LineComment", "FootComment", "Line", "Column", "Style", "Anchor")
 
 	if dq.Conditions == nil {
 		return true
@@ -55,7 +55,7 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(*result, c.Value, compareOptions); !ok {
+				if ok := cmp.Equal(*result, c.Value, compareOptions, cmpopts.EquateEmpty()); !ok {
 					return false
 				}
 			}
-- 
2.43.0


From b480a9eeaa3807b88813a5df5a55c842bca0638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 19/49] fix: do not panic when injecting without a query or
 injectPath

---
 internal/overlays/onmissing.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/onmissing.go b/internal/overlays/onmissing.go
index 6e16825..4ca4a51 100644
--- a/internal/overlays/onmissing.go
+++ b/internal/overlays/onmissing.go
@@ -82,10 +82,16 @@ func (o *Overlay) doInjectPath(ip Queries, node *yaml.Node) error {
 }
 
 func (o *Overlay) handleInjectPath(n *yaml.Node) error {
+	if len(o.Query) == 0 {
+		log.Debugf("ignoring %s due to missing query\n", o.Action)
+
+		return nil
+	}
+
 	_, err := builder.NewPaths(o.Query.Paths())
 	if err != nil {
 		if errors.Is(err, builder.ErrInvalidPathSyntax) {
-			if o.OnMissing.InjectPath == nil {
+			if len(o.OnMissing.InjectPath) == 0 {
 				log.Debugf("ignoring %s at %s due to %s\n", o.Action, o.Query, ErrOnMissingNoInjectPath)
 
 				return nil
-- 
2.43.0


From cd484fa831c9a2a640a578c821b6fd3a57b2cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 20/49] fix: report an invalid log level instead of panicking

---
 internal/commands/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/root.go b/internal/commands/root.go
index 7f2eca6..f31f355 100644
--- a/internal/commands/root.go
+++ b/internal/commands/root.go
@@ -141,7 +141,7 @@ func (r *Root) SetupLogging(cmd *cobra.Command, args []string) {
 
 	logLevel, err := logging.LogLevel((viper.GetString("logLevel")))
 	if err != nil {
-		panic(err)
+		r.Log.Fatal(err)
 	}
 
 	backend.SetLevel(logLevel, "")
-- 
2.43.0


From 99a3f26bd58c90d9edc1f8cda878ad79c659c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 21/49] fix: report null list entries in the instructions
 instead of panicking

---
 internal/instructions/instructions.go |  4 +++
 internal/instructions/yamlfile.go     | 38 +++++++++++++++++++++++++++
 internal/overlays/overlay.go          | 16 +++++++++++
 internal/overlays/query.go            |  6 +++++
 4 files changed, 64 insertions(+)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 5ab7e8c..f2663cd 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -106,6 +106,10 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
+	if err := checkNullOverlays(instructions.CommonOverlays); err != nil {
+		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
+	}
+
 	return &instructions, nil
 }
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index ca9c31d..f16b844 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -64,6 +64,12 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, yf := range yft {
+		if err := yf.checkNullEntries(); err != nil {
+			return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
+		}
+	}
+
 	y := YamlFiles(yft)
 	if err := y.expandDirectories(); err != nil {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
@@ -82,6 +88,38 @@ func (yfs *YamlFiles) UnmarshalYAML(value *yaml.Node) error {
 	return nil
 }
 
+func (yf *YamlFile) checkNullEntries() error {
+	if yf == nil {
+		return fmt.Errorf("%w in yamlFiles", overlays.ErrNullEntry)
+	}
+
+	if err := checkNullOverlays(yf.Overlays); err != nil {
+		return err
+	}
+
+	for _, d := range yf.Documents {
+		if d == nil {
+			return fmt.Errorf("%w in documents", overlays.ErrNullEntry)
+		}
+
+		if err := checkNullOverlays(d.Overlays); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+func checkNullOverlays(os []*overlays.Overlay) error {
+	for _, o := range os {
+		if o == nil {
+			return fmt.Errorf("%w in overlays", overlays.ErrNullEntry)
+		}
+	}
+
+	return nil
+}
+
 func (yf *YamlFile) readYamlFile() error {
 	reader, err := ReadStream(yf.Path)
 	if err != nil {
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index b1c44e1..5f18def 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -4,6 +4,7 @@
 package overlays
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/op/go-logging"
@@ -13,6 +14,9 @@ import (
 
 var log = logging.MustGetLogger("overlays") //nolint:gochecknoglobals
 
+// ErrNullEntry occurs when a list in the instructions has an entry without content.
+var ErrNullEntry = errors.New("null is not a valid list entry")
+
 type Overlay struct {
 	Name          string          `yaml:"name,omitempty"`
 	Query         Queries         `yaml:"query,omitempty"`
@@ -87,6 +91,18 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for _, q := range o.DocumentQuery {
+		if q == nil {
+			return fmt.Errorf("%w in documentQuery at line %d column %d", ErrNullEntry, value.Line, value.Column)
+		}
+
+		for _, c := range q.Conditions {
+			if c == nil {
+				return fmt.Errorf("%w in conditions at line %d column %d", ErrNullEntry, value.Line, value.Column)
+			}
+		}
+	}
+
 	switch "" {
 	case o.Name:
 		o.Name = o.Query.String()
diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 9928230..d738d7d 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -65,6 +65,12 @@ func (mq *Queries) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	for i := range *mq {
+		if (*mq)[i].yamlPath == nil {
+			return fmt.Errorf("%w in query at line %d column %d", ErrNullEntry, value.Line, value.Column)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From aaca5e5dc8de5c3da98e5c85cc696341897da3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 22/49] fix: a directory entry that is a symbolic link is not
 silently ignored

---
 internal/instructions/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 81f6fad..4c6215d 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -86,7 +86,8 @@ func isDirectory(p string) (bool, error) {
 func getFileNames(p string) ([]string, error) {
 	var results []string
 
-	err := filepath.Walk(p,
+	// with a trailing separator, a symbolic link to a directory is walked like the directory
+	err := filepath.Walk(p+string(os.PathSeparator),
 		func(path string, info os.FileInfo, err error) error {
 			if err != nil {
 				return err
-- 
2.43.0


From 3536dd858bf7023dba807257f5b55fe0ab4cf654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 23/49] fix: unescape dotted child names of an inject path only
 once

yaml-jsonpath unescapes a name once; injecting .a\\\\b created another key than
the one the same query finds, and the value was lost.
---
 internal/builder/path.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index f54876d..3a5fd10 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -100,8 +100,6 @@ func newPath(l *lexer) (*Path, error) {
 			return nil, fmt.Errorf("%w, wildcard notation not allowed for build", ErrInvalidPathSyntax)
 		}
 
-		childName = unescape(childName)
-
 		return childThen(l, childName)
 
 	case lexemeUndottedChild:
-- 
2.43.0


From 37514bba466676491716dead153624c882a55e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 24/49] fix: merge values files as data

The overlay merge expanded format markers in values to nothing (%k, %v...) and
refused aliases where both files have the key.
---
 internal/instructions/values.go | 72 ++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 44d2dd1..314cf56 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -6,17 +6,14 @@ package instructions
 import (
 	"fmt"
 
-	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
 func getValues(fileNames []string) (interface{}, error) {
 	var values interface{}
 
-	yamlValues := make([]*yaml.Node, len(fileNames))
-
 	for i, v := range fileNames {
-		var yamlValue yaml.Node
+		var yamlValue interface{}
 
 		reader, err := ReadStream(v)
 		if err != nil {
@@ -29,23 +26,70 @@ func getValues(fileNames []string) (interface{}, error) {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
-		yamlValues[i] = &yamlValue
+		if i == 0 {
+			values = yamlValue
+		} else {
+			values = mergeValues(values, yamlValue)
+		}
 	}
 
-	if len(yamlValues) != 0 {
-		if err := actions.MergeNode(yamlValues...); err != nil {
-			return nil, fmt.Errorf("failed to merge yaml values: %w", err)
+	return values, nil
+}
+
+// mergeValues merges n into o: maps by key, arrays are appended, anything else is replaced.
+func mergeValues(o, n interface{}) interface{} {
+	switch nv := n.(type) {
+	case map[string]interface{}, map[interface{}]interface{}:
+		om, nm := anyKeyMap(o), anyKeyMap(n)
+
+		for k, v := range nm {
+			if c, found := om[k]; found {
+				v = mergeValues(c, v)
+			}
+
+			om[k] = v
 		}
 
-		b, err := yaml.Marshal(yamlValues[0])
-		if err != nil {
-			return nil, fmt.Errorf("failed to marshal yaml values: %w", err)
+		return stringKeyMap(om)
+	case []interface{}:
+		if ov, ok := o.([]interface{}); ok {
+			return append(ov[:len(ov):len(ov)], nv...)
 		}
+	}
+
+	return n
+}
 
-		if err := yaml.Unmarshal(b, &values); err != nil {
-			return nil, fmt.Errorf("failed to unmarshal yaml values: %w", err)
+// anyKeyMap copies a map with keys of any type; it is empty for anything but a map.
+func anyKeyMap(v interface{}) map[interface{}]interface{} {
+	m := map[interface{}]interface{}{}
+
+	switch mv := v.(type) {
+	case map[string]interface{}:
+		for k, c := range mv {
+			m[k] = c
+		}
+	case map[interface{}]interface{}:
+		for k, c := range mv {
+			m[k] = c
 		}
 	}
 
-	return values, nil
+	return m
+}
+
+// stringKeyMap returns the type yaml decodes a map to: with string keys, if it has no others.
+func stringKeyMap(m map[interface{}]interface{}) interface{} {
+	s := make(map[string]interface{}, len(m))
+
+	for k, v := range m {
+		key, ok := k.(string)
+		if !ok {
+			return m
+		}
+
+		s[key] = v
+	}
+
+	return s
 }
-- 
2.43.0


From afc502bddd69e5edf8d7c1bec52dc834aa306709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 25/49] fix: aliases in documents and overlay values stay valid

An alias in an overlay's value, or one whose anchor was deleted, replaced or
overwritten, was output without its anchor, which is not valid YAML. Merging
into an alias lost the data it stood for.
---
 internal/actions/alias.go       | 120 ++++++++++++++++++++++++++++++++
 internal/actions/combine.go     |   6 ++
 internal/actions/merge.go       |   7 ++
 internal/actions/replace.go     |   2 +
 internal/instructions/config.go |   4 ++
 internal/overlays/overlay.go    |  20 +++++-
 6 files changed, 157 insertions(+), 2 deletions(-)
 create mode 100644 internal/actions/alias.go

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
new file mode 100644
index 0000000..104f44e
--- /dev/null
+++ b/internal/actions/alias.go
@@ -0,0 +1,120 @@
+// Copyright 2021 VMware, Inc.
+// SPDX-License-Identifier: MIT
+
+package actions
+
+import (
+	"errors"
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
+
+// maxAliasNodes limits how much aliases may expand to.
+const maxAliasNodes = 1_000_000
+
+var (
+	// ErrAliasContainsItself occurs when an alias refers to something the alias is part of.
+	ErrAliasContainsItself = errors.New("value contains an alias of itself")
+	// ErrExcessiveAliasing occurs when aliases expand to too many nodes.
+	ErrExcessiveAliasing = errors.New("value contains excessive aliasing")
+)
+
+// ResolveAliases replaces every alias within a node by what it refers to, so
+// that the node can be used in another document.
+func ResolveAliases(n *yaml.Node) error {
+	size := 0
+
+	c, err := expandAliases(n, nil, &size)
+	if err != nil {
+		return err
+	}
+
+	*n = *c
+
+	return nil
+}
+
+// expandAliases copies a node without anchors and aliases, except for aliases of nodes in keep.
+func expandAliases(n *yaml.Node, keep map[*yaml.Node]bool, size *int, parents ...*yaml.Node) (*yaml.Node, error) {
+	for _, p := range parents {
+		if p == n {
+			return nil, fmt.Errorf("%w at line %d column %d", ErrAliasContainsItself, n.Line, n.Column)
+		}
+	}
+
+	if *size++; *size > maxAliasNodes {
+		return nil, ErrExcessiveAliasing
+	}
+
+	parents = append(parents[:len(parents):len(parents)], n)
+
+	if n.Kind == yaml.AliasNode {
+		if keep[n.Alias] {
+			c := *n
+
+			return &c, nil
+		}
+
+		c, err := expandAliases(n.Alias, keep, size, parents...)
+		if err != nil {
+			return nil, err
+		}
+
+		c.HeadComment, c.LineComment, c.FootComment = n.HeadComment, n.LineComment, n.FootComment
+
+		return c, nil
+	}
+
+	c := *n
+	c.Anchor = ""
+	c.Content = nil
+
+	for _, child := range n.Content {
+		cc, err := expandAliases(child, keep, size, parents...)
+		if err != nil {
+			return nil, err
+		}
+
+		c.Content = append(c.Content, cc)
+	}
+
+	return &c, nil
+}
+
+// RestoreAliases replaces the aliases of nodes which are not part of the
+// document any more by what they referred to.
+func RestoreAliases(root *yaml.Node) error {
+	keep := map[*yaml.Node]bool{}
+	aliases := []*yaml.Node{}
+
+	var walk func(n *yaml.Node)
+
+	walk = func(n *yaml.Node) {
+		switch {
+		case n.Kind == yaml.AliasNode:
+			aliases = append(aliases, n)
+		case n.Anchor != "":
+			keep[n] = true
+		}
+
+		for _, c := range n.Content {
+			walk(c)
+		}
+	}
+
+	walk(root)
+
+	size := 0
+
+	for _, a := range aliases {
+		c, err := expandAliases(a, keep, &size)
+		if err != nil {
+			return err
+		}
+
+		*a = *c
+	}
+
+	return nil
+}
diff --git a/internal/actions/combine.go b/internal/actions/combine.go
index 7214bc2..e5d04cb 100644
--- a/internal/actions/combine.go
+++ b/internal/actions/combine.go
@@ -17,6 +17,12 @@ import (
 var ErrCombineOnlyForScalars = errors.New("combine action can only be used on scalar values")
 
 func CombineNode(originalValue, newValue *yaml.Node) error {
+	if originalValue.Kind == yaml.AliasNode {
+		if err := ResolveAliases(originalValue); err != nil {
+			return err
+		}
+	}
+
 	if originalValue.Kind != yaml.ScalarNode || newValue.Kind != yaml.ScalarNode {
 		return ErrCombineOnlyForScalars
 	}
diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 993b9d7..6d183ff 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -36,6 +36,13 @@ func MergeNode(nodes ...*yaml.Node) error {
 }
 
 func merge(o, n *yaml.Node, keyName ...string) error {
+	// only this occurrence is changed, not what the alias refers to
+	if o.Kind == yaml.AliasNode {
+		if err := ResolveAliases(o); err != nil {
+			return err
+		}
+	}
+
 	switch n.Kind {
 	case yaml.DocumentNode:
 		return mergeDocument(o, n)
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index 61df805..a64d840 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -17,6 +17,8 @@ func ReplaceNode(original, replace *yaml.Node) error {
 		return fmt.Errorf("failed to replace value: %w", err)
 	}
 
+	original.Anchor = ov.Anchor
+
 	mergeComments(&ov, original)
 	original.HeadComment = ov.HeadComment
 	original.LineComment = ov.LineComment
diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index c482ce9..7deecb4 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -186,6 +186,10 @@ func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 			cfg.Overlay.Value = *cfg.Overlay.Value.Content[0]
 		}
 
+		if err := actions.ResolveAliases(&cfg.Overlay.Value); err != nil {
+			return fmt.Errorf("unable to read overlay value from flag, %w", err)
+		}
+
 		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
 	}
 
diff --git a/internal/overlays/overlay.go b/internal/overlays/overlay.go
index 5f18def..fad9ffb 100644
--- a/internal/overlays/overlay.go
+++ b/internal/overlays/overlay.go
@@ -39,10 +39,18 @@ func (o *Overlay) Apply(n *yaml.Node) error {
 	if results == nil {
 		log.Debugf("No results found checking onMissing")
 
-		return o.onMissing(n)
+		if err := o.onMissing(n); err != nil {
+			return err
+		}
+	} else if err := o.doAction(n, results); err != nil {
+		return err
+	}
+
+	if err := actions.RestoreAliases(n); err != nil {
+		return fmt.Errorf("%w, after %s", err, o.Action)
 	}
 
-	return o.doAction(n, results)
+	return nil
 }
 
 func (o *Overlay) CheckDocumentIndex(current int) bool {
@@ -91,6 +99,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("failed to unmarshal overlay due to %w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := actions.ResolveAliases(&o.Value); err != nil {
+		return fmt.Errorf("%w in overlay at line %d column %d", err, value.Line, value.Column)
+	}
+
 	for _, q := range o.DocumentQuery {
 		if q == nil {
 			return fmt.Errorf("%w in documentQuery at line %d column %d", ErrNullEntry, value.Line, value.Column)
@@ -100,6 +112,10 @@ func (o *Overlay) UnmarshalYAML(value *yaml.Node) error {
 			if c == nil {
 				return fmt.Errorf("%w in conditions at line %d column %d", ErrNullEntry, value.Line, value.Column)
 			}
+
+			if err := actions.ResolveAliases(&c.Value); err != nil {
+				return fmt.Errorf("%w in conditions at line %d column %d", err, value.Line, value.Column)
+			}
 		}
 	}
 
-- 
2.43.0


From 97272bd11b302b64771be96c6d6d99ff97fc7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 26/49] fix: keep the data of scalars that the requested style
 cannot represent

---
 internal/actions/style.go | 47 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 6658e8d..92fd57f 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -78,9 +78,54 @@ func setStyle(s Style, n ...*yaml.Node) {
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
-			nv.Style = yaml.Style(s)
+			nv.Style = scalarStyle(s, nv)
+		}
+	}
+}
+
+// scalarStyle returns the requested style, unless rendering the scalar in that style would change its data.
+func scalarStyle(s Style, n *yaml.Node) yaml.Style {
+	const (
+		block  = LiteralStyle | FoldedStyle
+		quoted = DoubleQuotedStyle | SingleQuotedStyle
+	)
+
+	switch {
+	case n.ShortTag() != "!!str":
+		// a quoted or block scalar reads back as a string, unless it is tagged.
+		if s&TaggedStyle == 0 {
+			s &^= block | quoted
+		}
+	case n.Value == "<<" && s&quoted == 0:
+		// without quotes this is the merge key.
+		s = s&^block | DoubleQuotedStyle
+	case strings.Contains(n.Value, "\n") || s&block != 0:
+		// multi-line strings are rendered as block scalars unless they are quoted.
+		if s&quoted == 0 && !isBlockSafe(n.Value, s&FoldedStyle != 0) {
+			s = s&^block | DoubleQuotedStyle
+		}
+	}
+
+	return yaml.Style(s)
+}
+
+// isBlockSafe reports whether a block scalar can hold the string unchanged.
+func isBlockSafe(v string, folded bool) bool {
+	if v != strings.TrimLeft(v, " \t\n") || strings.ContainsAny(v, "\r\u0085\u2028\u2029\ufeff") {
+		return false
+	}
+
+	if !folded {
+		return true
+	}
+
+	for _, next := range []string{"\n\n", "\n ", "\n\t"} {
+		if strings.Contains(v, next) {
+			return false
 		}
 	}
+
+	return true
 }
 
 func GetStyleFromConfig(v ...string) Styles {
-- 
2.43.0


From 1a1669957cd7963e5149e286de38c94ac082dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 27/49] fix: inject a child named twice in a path only once

---
 internal/builder/path.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/builder/path.go b/internal/builder/path.go
index 3a5fd10..4ea5b88 100644
--- a/internal/builder/path.go
+++ b/internal/builder/path.go
@@ -295,7 +295,15 @@ func bracketChildThen(l *lexer, childNames string) (*Path, error) {
 			Column:      0,
 		}
 
+		added := map[string]bool{}
+
 		for _, childName := range unquotedChildren {
+			if added[childName] {
+				continue
+			}
+
+			added[childName] = true
+
 			content := []*yaml.Node{
 				{
 					Kind:        yaml.ScalarNode,
-- 
2.43.0


From af9e6b56f36868f5a97461d60ff6c5ad05c4b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 28/49] fix: an empty query acts on the document's root, not on
 the document around it

---
 internal/overlays/query.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index d738d7d..3b7793d 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -43,6 +43,13 @@ func (q Query) String() string {
 func (q *Query) Find(node *yaml.Node) []*yaml.Node {
 	results, _ := q.yamlPath.Find(node)
 
+	// the empty path finds the document, which stands for its root
+	for i, r := range results {
+		if r.Kind == yaml.DocumentNode && len(r.Content) > 0 {
+			results[i] = r.Content[0]
+		}
+	}
+
 	return results
 }
 
-- 
2.43.0


From 4b06e1edcb0c48dba90c47d6e6292baa53dbfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 29/49] fix: keep the output valid when comments or times meet
 flow and tagged styles

---
 internal/actions/style.go | 47 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 92fd57f..020be35 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,6 +76,10 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
+			if nv.Kind == yaml.MappingNode {
+				placeLineComments(s, nv)
+			}
+
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
 			nv.Style = scalarStyle(s, nv)
@@ -83,6 +87,38 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
+// placeLineComments moves the line comments of keys which would not fit between the key and its value:
+// to the value if that is on the same line and has none, else above the key.
+func placeLineComments(s Style, n *yaml.Node) {
+	for i := 0; i+1 < len(n.Content); i += 2 {
+		k, v := n.Content[i], n.Content[i+1]
+
+		if k.LineComment == "" {
+			continue
+		}
+
+		if v.LineComment == "" {
+			prefixed := s&(FlowStyle|TaggedStyle) != 0 || v.Anchor != "" || v.ShortTag() != "!!map" && v.ShortTag() != "!!seq"
+
+			switch {
+			case v.Kind == yaml.ScalarNode, len(v.Content) != 0 && !prefixed:
+				continue
+			case len(v.Content) == 0:
+				k.LineComment, v.LineComment = "", k.LineComment
+
+				continue
+			}
+		}
+
+		if k.HeadComment != "" {
+			k.HeadComment += "\n"
+		}
+
+		k.HeadComment += k.LineComment
+		k.LineComment = ""
+	}
+}
+
 // scalarStyle returns the requested style, unless rendering the scalar in that style would change its data.
 func scalarStyle(s Style, n *yaml.Node) yaml.Style {
 	const (
@@ -93,15 +129,22 @@ func scalarStyle(s Style, n *yaml.Node) yaml.Style {
 	switch {
 	case n.ShortTag() != "!!str":
 		// a quoted or block scalar reads back as a string, unless it is tagged.
+		s &^= block
+
 		if s&TaggedStyle == 0 {
-			s &^= block | quoted
+			s &^= quoted
+		}
+
+		// the colons of a time cannot be left unquoted here.
+		if s&FlowStyle != 0 && strings.Contains(n.Value, ":") {
+			s |= TaggedStyle
 		}
 	case n.Value == "<<" && s&quoted == 0:
 		// without quotes this is the merge key.
 		s = s&^block | DoubleQuotedStyle
 	case strings.Contains(n.Value, "\n") || s&block != 0:
 		// multi-line strings are rendered as block scalars unless they are quoted.
-		if s&quoted == 0 && !isBlockSafe(n.Value, s&FoldedStyle != 0) {
+		if s&quoted == 0 && (!isBlockSafe(n.Value, s&FoldedStyle != 0) || strings.Contains(n.LineComment, "\n")) {
 			s = s&^block | DoubleQuotedStyle
 		}
 	}
-- 
2.43.0


From 366196ec51a3b22035f0d8e0277871d6272b51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 30/49] fix: naming an output style twice does not select
 another one

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 020be35..8468d4d 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -59,7 +59,7 @@ func (ss Styles) FlagMap() map[Style][]string {
 func (ss Styles) GetStyle() Style {
 	var s Style
 	for _, v := range ss {
-		s += v
+		s |= v
 	}
 
 	return s
-- 
2.43.0


From 044f766e49909e1cb4b4e42c30ff300476695bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 31/49] fix: keep marker-like text of the original when
 expanding markers

---
 internal/actions/format.go | 99 ++++++++++++--------------------------
 1 file changed, 31 insertions(+), 68 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index f2c0c05..cd0ec29 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -12,10 +12,38 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-func format(formatStr string, v ...interface{}) string {
-	v = sanitizeValues(v...)
+var markerExpression = regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
+
+// format replaces the markers in formatStr by the original value, line comment,
+// head comment, foot comment and key, in that order. What is inserted is not
+// searched for markers.
+func format(formatStr string, v ...string) string {
+	values := map[string]string{
+		ValueMarker:       v[0],
+		LineCommentMarker: v[1],
+		HeadCommentMarker: v[2],
+		FootCommentMarker: v[3],
+		KeyMarker:         v[4],
+	}
+
+	return markerExpression.ReplaceAllStringFunc(formatStr, func(match string) string {
+		result := markerExpression.FindStringSubmatch(match)
+		value := values[result[markerExpression.SubexpIndex("marker")]]
+
+		command := result[markerExpression.SubexpIndex("command")]
+		if command == "" {
+			return value
+		}
 
-	return doFormat(formatStr, v...)
+		formatted, err := processSedCommand(command, value)
+		if err != nil {
+			log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", formatStr, command, err)
+
+			return value
+		}
+
+		return formatted
+	})
 }
 
 func sanitizeNode(n ...*yaml.Node) {
@@ -37,71 +65,6 @@ func sanitizeNode(n ...*yaml.Node) {
 	}
 }
 
-func sanitizeValues(v ...interface{}) []interface{} {
-	for _, t := range []string{
-		ValueMarker,
-		LineCommentMarker,
-		HeadCommentMarker,
-		FootCommentMarker,
-		KeyMarker,
-	} {
-		for j := range v {
-			v[j] = strings.ReplaceAll(v[j].(string), t, "")
-		}
-	}
-
-	return v
-}
-
-func doFormat(s string, values ...interface{}) string {
-	markers := []string{
-		ValueMarker,
-		LineCommentMarker,
-		HeadCommentMarker,
-		FootCommentMarker,
-		KeyMarker,
-	}
-
-	valueMap := map[string]string{}
-
-	for i, v := range markers {
-		if sv, ok := values[i].(string); ok {
-			valueMap[v] = sv
-		}
-	}
-
-	re := regexp.MustCompile(`(?P<marker>%[vklfh])(?P<format>{(?P<command>.*?)})?`)
-
-	matches := re.FindAllStringSubmatch(s, -1)
-
-	for _, match := range matches {
-		result := make(map[string]string)
-
-		for i, name := range re.SubexpNames() {
-			if i != 0 && name != "" {
-				result[name] = match[i]
-			}
-		}
-
-		if result["marker"] != "" {
-			marker := valueMap[result["marker"]]
-
-			if result["command"] != "" {
-				var err error
-
-				marker, err = processSedCommand(result["command"], valueMap[result["marker"]])
-				if err != nil {
-					log.Warningf("Skipping additional format on [%s] due to invalid sed exp [%s], %s", s, result["command"], err)
-				}
-			}
-
-			s = strings.Replace(s, match[0], marker, 1)
-		}
-	}
-
-	return s
-}
-
 func processSedCommand(command, value string) (string, error) {
 	engine, err := sed.New(strings.NewReader(command))
 	if err != nil {
-- 
2.43.0


From bb19e83f9d41c395cf2e86843d84d0f803f30606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 32/49] fix: keep the last line break of text formatted by a
 sed command

---
 internal/actions/format.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/actions/format.go b/internal/actions/format.go
index cd0ec29..b60ca85 100644
--- a/internal/actions/format.go
+++ b/internal/actions/format.go
@@ -71,13 +71,15 @@ func processSedCommand(command, value string) (string, error) {
 		return value, fmt.Errorf("sed error: %w", err)
 	}
 
-	value, err = engine.RunString(value)
+	result, err := engine.RunString(value)
 	if err != nil {
 		return value, fmt.Errorf("sed error: %w", err)
 	}
 
-	value = strings.TrimSuffix(value, "\n")
-	value = strings.TrimPrefix(value, "\n")
+	// sed ends every line it writes
+	if !strings.HasSuffix(value, "\n") {
+		result = strings.TrimSuffix(result, "\n")
+	}
 
-	return value, nil
+	return result, nil
 }
-- 
2.43.0


From b827593ff3c4c8884c943e3b8797e0e9a731071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 33/49] fix: expand the markers in a renamed key's comments
 only once

---
 internal/actions/merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 6d183ff..8e39a95 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -98,7 +98,9 @@ func mergeMap(o, n *yaml.Node) error {
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
-			mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			if !foundMarker {
+				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
+			}
 
 			if err := merge(o.Content[oi+1], n.Content[ni+1], keyName); err != nil {
 				return err
-- 
2.43.0


From 59bf23a03b37b643ba8694c3d4880a79cf8a7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 34/49] fix: a renamed key has the type of its new name

---
 internal/actions/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 8e39a95..4ceac96 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -111,6 +111,10 @@ func mergeMap(o, n *yaml.Node) error {
 			}
 
 			mergeScalar(o.Content[oi], n.Content[ni], value, keyName)
+
+			if o.Content[oi].Value != keyName {
+				o.Content[oi].Tag = n.Content[ni].Tag
+			}
 		}
 
 		if !resultFound {
-- 
2.43.0


From 1ac6fc60a4c47ebea54a7da00e3ee5b9d0759392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 35/49] fix: keep the output valid when a line comment holds
 other line breaks

---
 internal/actions/style.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 8468d4d..02f6e68 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -144,7 +144,7 @@ func scalarStyle(s Style, n *yaml.Node) yaml.Style {
 		s = s&^block | DoubleQuotedStyle
 	case strings.Contains(n.Value, "\n") || s&block != 0:
 		// multi-line strings are rendered as block scalars unless they are quoted.
-		if s&quoted == 0 && (!isBlockSafe(n.Value, s&FoldedStyle != 0) || strings.Contains(n.LineComment, "\n")) {
+		if s&quoted == 0 && (!isBlockSafe(n.Value, s&FoldedStyle != 0) || strings.ContainsAny(n.LineComment, "\n\r\u0085\u2028\u2029")) {
 			s = s&^block | DoubleQuotedStyle
 		}
 	}
-- 
2.43.0


From cbfdfcb806eb8a216226f0a389d0b0bff73d8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 36/49] fix: keep line comments of flow collections with them

---
 internal/actions/style.go | 74 +++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 02f6e68..1da1285 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,9 +76,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
-			if nv.Kind == yaml.MappingNode {
-				placeLineComments(s, nv)
-			}
+			placeLineComments(s, nv)
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
@@ -87,36 +85,68 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
-// placeLineComments moves the line comments of keys which would not fit between the key and its value:
-// to the value if that is on the same line and has none, else above the key.
+// placeLineComments moves the line comments which cannot be rendered where they are:
+// those of keys to the value if that is on the same line and has none, else above the key,
+// and those of collections rendered on several lines to the line before the first of them.
 func placeLineComments(s Style, n *yaml.Node) {
-	for i := 0; i+1 < len(n.Content); i += 2 {
-		k, v := n.Content[i], n.Content[i+1]
+	step := 1
 
-		if k.LineComment == "" {
-			continue
-		}
+	if n.Kind == yaml.MappingNode {
+		step = 2
+	}
 
-		if v.LineComment == "" {
-			prefixed := s&(FlowStyle|TaggedStyle) != 0 || v.Anchor != "" || v.ShortTag() != "!!map" && v.ShortTag() != "!!seq"
+	for i := step - 1; i < len(n.Content); i += step {
+		v := n.Content[i]
+		isBlock := v.Kind != yaml.ScalarNode && len(v.Content) != 0 && s&FlowStyle == 0
 
-			switch {
-			case v.Kind == yaml.ScalarNode, len(v.Content) != 0 && !prefixed:
-				continue
-			case len(v.Content) == 0:
-				k.LineComment, v.LineComment = "", k.LineComment
+		if n.Kind == yaml.MappingNode {
+			k := n.Content[i-1]
+			placeKeyComment(s, k, v)
 
-				continue
+			if isBlock && v.LineComment != "" {
+				k.LineComment, v.LineComment = v.LineComment, ""
+				placeKeyComment(s, k, v)
 			}
+		} else if isBlock {
+			addHeadComment(v.Content[0], v.LineComment)
+			v.LineComment = ""
 		}
+	}
+}
+
+func placeKeyComment(s Style, k, v *yaml.Node) {
+	if k.LineComment == "" {
+		return
+	}
+
+	if v.LineComment == "" {
+		prefixed := s&(FlowStyle|TaggedStyle) != 0 || v.Anchor != "" || v.ShortTag() != "!!map" && v.ShortTag() != "!!seq"
 
-		if k.HeadComment != "" {
-			k.HeadComment += "\n"
+		switch {
+		case v.Kind == yaml.ScalarNode, len(v.Content) != 0 && !prefixed:
+			return
+		case len(v.Content) == 0:
+			k.LineComment, v.LineComment = "", k.LineComment
+
+			return
 		}
+	}
 
-		k.HeadComment += k.LineComment
-		k.LineComment = ""
+	if k.HeadComment != "" {
+		k.HeadComment += "\n"
 	}
+
+	k.HeadComment += k.LineComment
+	k.LineComment = ""
+}
+
+// addHeadComment puts a comment before those above the node.
+func addHeadComment(n *yaml.Node, comment string) {
+	if comment != "" && n.HeadComment != "" {
+		comment += "\n"
+	}
+
+	n.HeadComment = comment + n.HeadComment
 }
 
 // scalarStyle returns the requested style, unless rendering the scalar in that style would change its data.
-- 
2.43.0


From 773b25cb6a2ac10d1928724f2040fbedc93dee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 37/49] fix: keep foot comments of flow collections with them

---
 internal/actions/style.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 1da1285..953aea5 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -76,7 +76,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
 
-			placeLineComments(s, nv)
+			placeComments(s, nv)
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
@@ -85,10 +85,10 @@ func setStyle(s Style, n ...*yaml.Node) {
 	}
 }
 
-// placeLineComments moves the line comments which cannot be rendered where they are:
+// placeComments moves the comments which cannot be rendered where they are:
 // those of keys to the value if that is on the same line and has none, else above the key,
-// and those of collections rendered on several lines to the line before the first of them.
-func placeLineComments(s Style, n *yaml.Node) {
+// and those of collections rendered on several lines to their first and last entries.
+func placeComments(s Style, n *yaml.Node) {
 	step := 1
 
 	if n.Kind == yaml.MappingNode {
@@ -99,6 +99,11 @@ func placeLineComments(s Style, n *yaml.Node) {
 		v := n.Content[i]
 		isBlock := v.Kind != yaml.ScalarNode && len(v.Content) != 0 && s&FlowStyle == 0
 
+		if isBlock && v.FootComment != "" {
+			addFootComment(v, v.FootComment)
+			v.FootComment = ""
+		}
+
 		if n.Kind == yaml.MappingNode {
 			k := n.Content[i-1]
 			placeKeyComment(s, k, v)
@@ -149,6 +154,26 @@ func addHeadComment(n *yaml.Node, comment string) {
 	n.HeadComment = comment + n.HeadComment
 }
 
+// addFootComment puts a comment after the last entry of a collection.
+func addFootComment(n *yaml.Node, comment string) {
+	last := n.Content[len(n.Content)-1]
+
+	switch {
+	case n.Kind == yaml.MappingNode:
+		last = n.Content[len(n.Content)-2]
+	case len(last.Content) != 0:
+		addFootComment(last, comment)
+
+		return
+	}
+
+	if last.FootComment != "" {
+		last.FootComment += "\n"
+	}
+
+	last.FootComment += comment
+}
+
 // scalarStyle returns the requested style, unless rendering the scalar in that style would change its data.
 func scalarStyle(s Style, n *yaml.Node) yaml.Style {
 	const (
-- 
2.43.0


From 898421b7f35e4f62966756b8b8e52cd242a1bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 38/49] fix: merging a map sets the comment given with it

---
 internal/actions/merge.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 4ceac96..66553b4 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -74,6 +74,8 @@ func mergeDocument(o, n *yaml.Node) error {
 }
 
 func mergeMap(o, n *yaml.Node) error {
+	mergeComments(o, n)
+
 	for ni := 0; ni < len(n.Content)-1; ni += 2 {
 		resultFound := false
 
-- 
2.43.0


From a93f5ea3dd8bd5b8e447c38c4f0edee1ceb3715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:55 +0000
Subject: [PATCH 39/49] fix: write nulls out where an empty one would read as a
 string

---
 internal/actions/style.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index 953aea5..dc59024 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -77,6 +77,7 @@ func setStyle(s Style, n ...*yaml.Node) {
 			nv.Style = yaml.Style(s)
 
 			placeComments(s, nv)
+			spellNulls(s, nv)
 
 			setStyle(s, nv.Content...)
 		case yaml.ScalarNode:
@@ -174,6 +175,17 @@ func addFootComment(n *yaml.Node, comment string) {
 	last.FootComment += comment
 }
 
+// spellNulls writes out the nulls which are rendered as empty strings where they are empty.
+func spellNulls(s Style, n *yaml.Node) {
+	for i, v := range n.Content {
+		isKey := n.Kind == yaml.MappingNode && i%2 == 0
+
+		if v.Kind == yaml.ScalarNode && v.Value == "" && v.Tag == "!!null" && (isKey || s&FlowStyle != 0) {
+			v.Value = "null"
+		}
+	}
+}
+
 // scalarStyle returns the requested style, unless rendering the scalar in that style would change its data.
 func scalarStyle(s Style, n *yaml.Node) yaml.Style {
 	const (
-- 
2.43.0


From 207c59d9f49fcfb370a99d587180db470581a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 40/49] fix: take a --query flag literally, not as YAML

---
 internal/overlays/query.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/overlays/query.go b/internal/overlays/query.go
index 3b7793d..aa8ea30 100644
--- a/internal/overlays/query.go
+++ b/internal/overlays/query.go
@@ -25,9 +25,17 @@ func (q *Query) UnmarshalYAML(value *yaml.Node) error {
 		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
 	}
 
+	if err := q.parse(s); err != nil {
+		return fmt.Errorf("%w at line %d column %d", err, value.Line, value.Column)
+	}
+
+	return nil
+}
+
+func (q *Query) parse(s string) error {
 	p, err := yamlpath.NewPath(s)
 	if err != nil {
-		return fmt.Errorf("failed to parse the query path %s due to %w at line %d column %d", s, err, value.Line, value.Column)
+		return fmt.Errorf("failed to parse the query path %s due to %w", s, err)
 	}
 
 	q.yamlPath = p
@@ -114,8 +122,8 @@ func (mq *Queries) Find(node *yaml.Node) []*yaml.Node {
 
 func (mq *Queries) Set(val string) error {
 	var q Query
-	if err := yaml.Unmarshal([]byte(val), &q); err != nil {
-		return fmt.Errorf("%w", err)
+	if err := q.parse(val); err != nil {
+		return err
 	}
 
 	*mq = append(*mq, q)
-- 
2.43.0


From 45addb99a69b31fe37a9bf00156ea5ea244e8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 41/49] fix: write nodes built from a path in the tagged style,
 too

---
 internal/actions/style.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/actions/style.go b/internal/actions/style.go
index dc59024..0a974ff 100644
--- a/internal/actions/style.go
+++ b/internal/actions/style.go
@@ -72,6 +72,11 @@ func SetStyle(ss Styles, n ...*yaml.Node) {
 
 func setStyle(s Style, n ...*yaml.Node) {
 	for _, nv := range n {
+		// nodes built from a path have no tag, which the tagged style needs.
+		if nv.Tag == "" && (nv.Kind == yaml.MappingNode || nv.Kind == yaml.SequenceNode || nv.Value != "") && nv.Kind != yaml.AliasNode {
+			nv.Tag = nv.ShortTag()
+		}
+
 		switch nv.Kind {
 		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
 			nv.Style = yaml.Style(s)
-- 
2.43.0


From 5c4f98a069f96d245bd47fd312cbe3aab4f4ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 42/49] fix: report a failure to list or close an output file

---
 internal/instructions/config.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 7deecb4..fd31a11 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -63,11 +63,21 @@ func (cfg *Config) doPostProcessing(yf *YamlFile) error {
 			return err
 		}
 
-		defer CloseFile(o)
 	}
 
 	if _, err = output.WriteTo(o); err != nil {
-		return fmt.Errorf("failed to %w", err)
+		err = fmt.Errorf("failed to %w", err)
+	}
+
+	if o != os.Stdout {
+		// what was written may turn out to be lost only here
+		if cerr := o.Close(); cerr != nil && err == nil {
+			err = fmt.Errorf("failed to %w", cerr)
+		}
+	}
+
+	if err != nil {
+		return err
 	}
 
 	output.Reset()
@@ -98,7 +108,11 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 		return nil, fmt.Errorf("failed to create/open file %s: %w", fileName, err)
 	}
 
-	os.Stdout.WriteString(fileName + "\n")
+	if _, err := os.Stdout.WriteString(fileName + "\n"); err != nil {
+		CloseFile(file)
+
+		return nil, fmt.Errorf("failed to %w", err)
+	}
 
 	return file, nil
 }
-- 
2.43.0


From 38dfc35141d1735d7d43472f1b973217bd422a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 43/49] fix: report a failure to write in the env command

---
 internal/commands/env.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/commands/env.go b/internal/commands/env.go
index 5052de6..c983ab6 100644
--- a/internal/commands/env.go
+++ b/internal/commands/env.go
@@ -33,19 +33,23 @@ func (r *Root) EnvCommand() *cobra.Command {
 
 			return nil, cobra.ShellCompDirectiveNoFileComp
 		},
-		Run: r.env,
+		RunE: r.env,
 	}
 }
 
-func (r *Root) env(cmd *cobra.Command, args []string) {
+func (r *Root) env(cmd *cobra.Command, args []string) error {
 	settings := envMap()
 	if len(args) == 0 {
 		for k, v := range settings {
-			os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(v)))
+			if _, err := os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", k, viper.Get(v))); err != nil {
+				return fmt.Errorf("failed to %w", err)
+			}
 		}
-	} else {
-		os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", args[0], viper.Get(settings[args[0]])))
+	} else if _, err := os.Stdout.WriteString(fmt.Sprintf("%s=\"%v\"\n", args[0], viper.Get(settings[args[0]]))); err != nil {
+		return fmt.Errorf("failed to %w", err)
 	}
+
+	return nil
 }
 
 func envMap() map[string]string {
-- 
2.43.0


From 406c94c8cca30d3211e60a62e7485d55c7b3479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 44/49] fix: report input that makes the YAML parser panic
 instead of crashing

---
 internal/instructions/config.go       |  5 ++++-
 internal/instructions/instructions.go |  2 +-
 internal/instructions/utils.go        | 16 ++++++++++++++++
 internal/instructions/values.go       |  2 +-
 internal/instructions/yamlfile.go     |  2 +-
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index fd31a11..28ee1cd 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -7,9 +7,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/op/go-logging"
 	"github.com/spf13/viper"
@@ -192,7 +194,8 @@ func (cfg *Config) ReadAdHocPaths(i *Instructions) error {
 
 func (cfg *Config) ReadAdHocOverlays(i *Instructions) error {
 	if cfg.Overlay.Query != nil {
-		if err := yaml.Unmarshal([]byte(cfg.Value), &cfg.Overlay.Value); err != nil {
+		dc := yaml.NewDecoder(strings.NewReader(cfg.Value))
+		if err := decodeYAML(dc, &cfg.Overlay.Value); err != nil && !errors.Is(err, io.EOF) {
 			return fmt.Errorf("unable to read overlay value from flag, %w", err)
 		}
 
diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index f2663cd..8ae32e3 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -102,7 +102,7 @@ func (cfg *Config) ReadInstructionFile() (*Instructions, error) {
 	}
 
 	dc := yaml.NewDecoder(reader)
-	if err := dc.Decode(&instructions); err != nil {
+	if err := decodeYAML(dc, &instructions); err != nil {
 		return nil, fmt.Errorf("unable to read instructions file %s: %w", cfg.InstructionsFile, err)
 	}
 
diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 4c6215d..755386e 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -5,14 +5,19 @@ package instructions
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"io"
 	"os"
 	"path"
 	"path/filepath"
 	"strings"
+
+	"gopkg.in/yaml.v3"
 )
 
+var ErrMalformedYAML = errors.New("malformed yaml")
+
 func ReadStream(fileName string) (io.Reader, error) {
 	if fileName == "-" {
 		return bufio.NewReader(os.Stdin), nil
@@ -26,6 +31,17 @@ func ReadStream(fileName string) (io.Reader, error) {
 	return file, nil
 }
 
+// decodeYAML decodes the next document, reporting input on which the YAML parser itself panics as malformed.
+func decodeYAML(dc *yaml.Decoder, v interface{}) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", ErrMalformedYAML, r)
+		}
+	}()
+
+	return dc.Decode(v)
+}
+
 // CloseFile safely closes a file handle.
 func CloseFile(file *os.File) {
 	if err := file.Close(); err != nil {
diff --git a/internal/instructions/values.go b/internal/instructions/values.go
index 314cf56..bc64cbb 100644
--- a/internal/instructions/values.go
+++ b/internal/instructions/values.go
@@ -22,7 +22,7 @@ func getValues(fileNames []string) (interface{}, error) {
 
 		yd := yaml.NewDecoder(reader)
 
-		if err := yd.Decode(&yamlValue); err != nil {
+		if err := decodeYAML(yd, &yamlValue); err != nil {
 			return nil, fmt.Errorf("failed to decode yaml values: %w", err)
 		}
 
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index f16b844..6796e01 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -131,7 +131,7 @@ func (yf *YamlFile) readYamlFile() error {
 	for {
 		var y yaml.Node
 
-		if err := dc.Decode(&y); errors.Is(err, io.EOF) {
+		if err := decodeYAML(dc, &y); errors.Is(err, io.EOF) {
 			if reader, ok := reader.(*os.File); ok {
 				CloseFile(reader)
 			}
-- 
2.43.0


From 43c5b4ecaab7b5699142f9455addd3f9da95eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:34 +0000
Subject: [PATCH 45/49] fix: compare what an alias refers to with the value of
 a condition

---
 internal/overlays/documentquery.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/overlays/documentquery.go b/internal/overlays/documentquery.go
index d492e04..cb38ec7 100644
--- a/internal/overlays/documentquery.go
+++ b/internal/overlays/documentquery.go
@@ -6,6 +6,7 @@ package overlays
 import (
 	"github.com/google/go-cmp/cmp"
 	"github.com/google/go-cmp/cmp/cmpopts"
+	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
 	"gopkg.in/yaml.v3"
 )
 
@@ -55,7 +56,13 @@ func (dq *DocumentQuery) checkQuery(node *yaml.Node) bool {
 
 		if !c.Value.IsZero() {
 			for _, result := range results {
-				if ok := cmp.Equal(*result, c.Value, compareOptions, cmpopts.EquateEmpty()); !ok {
+				// an alias is the same data as what it refers to
+				resolved := *result
+				if err := actions.ResolveAliases(&resolved); err != nil {
+					return false
+				}
+
+				if ok := cmp.Equal(resolved, c.Value, compareOptions, cmpopts.EquateEmpty()); !ok {
 					return false
 				}
 			}
-- 
2.43.0


From 32be2cfe0a18acede57e2bef9417aed169deb60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:00 +0000
Subject: [PATCH 46/49] fix: compare keys of maps by what they are when merging

---
 internal/actions/alias.go |  9 +++++++++
 internal/actions/merge.go | 29 ++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/actions/alias.go b/internal/actions/alias.go
index 104f44e..097c44b 100644
--- a/internal/actions/alias.go
+++ b/internal/actions/alias.go
@@ -35,6 +35,15 @@ func ResolveAliases(n *yaml.Node) error {
 	return nil
 }
 
+// resolved returns what a node refers to if it is an alias, else the node itself.
+func resolved(n *yaml.Node) *yaml.Node {
+	for n.Kind == yaml.AliasNode && n.Alias != nil {
+		n = n.Alias
+	}
+
+	return n
+}
+
 // expandAliases copies a node without anchors and aliases, except for aliases of nodes in keep.
 func expandAliases(n *yaml.Node, keep map[*yaml.Node]bool, size *int, parents ...*yaml.Node) (*yaml.Node, error) {
 	for _, p := range parents {
diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 66553b4..24a29c7 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -90,13 +90,23 @@ func mergeMap(o, n *yaml.Node) error {
 			var foundMarker bool
 
 			if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker {
-				if o.Content[oi].Value != n.Content[ni].Value {
+				if !sameKey(o.Content[oi], n.Content[ni]) {
 					continue
 				}
+			} else if resolved(o.Content[oi]).Kind != yaml.ScalarNode {
+				// a key which is a collection has no text to expand
+				continue
 			}
 
 			resultFound = true
 
+			// only this occurrence of the key is changed, not what the alias refers to
+			if o.Content[oi].Kind == yaml.AliasNode {
+				if err := ResolveAliases(o.Content[oi]); err != nil {
+					return err
+				}
+			}
+
 			keyName := o.Content[oi].Value
 			value := o.Content[oi+1].Value
 
@@ -129,6 +139,23 @@ func mergeMap(o, n *yaml.Node) error {
 	return nil
 }
 
+// sameKey compares the keys of maps: scalars by their text, collections by their content.
+func sameKey(o, n *yaml.Node) bool {
+	o, n = resolved(o), resolved(n)
+
+	if o.Kind != n.Kind || o.Value != n.Value || len(o.Content) != len(n.Content) {
+		return false
+	}
+
+	for i := range o.Content {
+		if !sameKey(o.Content[i], n.Content[i]) {
+			return false
+		}
+	}
+
+	return true
+}
+
 func mergeArray(o, n *yaml.Node) error {
 	if o.Kind != yaml.SequenceNode {
 		o.Kind = yaml.SequenceNode
-- 
2.43.0


From 10b5835340c3902b389adb9709cff6b56cca5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:02 +0000
Subject: [PATCH 47/49] fix: expand markers to what an alias refers to

---
 internal/actions/merge.go   | 2 +-
 internal/actions/replace.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/actions/merge.go b/internal/actions/merge.go
index 24a29c7..63a88d8 100644
--- a/internal/actions/merge.go
+++ b/internal/actions/merge.go
@@ -108,7 +108,7 @@ func mergeMap(o, n *yaml.Node) error {
 			}
 
 			keyName := o.Content[oi].Value
-			value := o.Content[oi+1].Value
+			value := resolved(o.Content[oi+1]).Value
 
 			if !foundMarker {
 				mergeComments(o.Content[oi], n.Content[ni], value, keyName)
diff --git a/internal/actions/replace.go b/internal/actions/replace.go
index a64d840..37db124 100644
--- a/internal/actions/replace.go
+++ b/internal/actions/replace.go
@@ -19,6 +19,7 @@ func ReplaceNode(original, replace *yaml.Node) error {
 
 	original.Anchor = ov.Anchor
 
+	ov.Value = resolved(&ov).Value
 	mergeComments(&ov, original)
 	original.HeadComment = ov.HeadComment
 	original.LineComment = ov.LineComment
-- 
2.43.0


From 748ee19b17a7d597d0c8e4d8c935e9d6902b00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 48/49] fix: take . and .. in outputPath for directories

---
 internal/instructions/instructions.go | 2 +-
 internal/instructions/utils.go        | 7 +++++++
 internal/instructions/yamlfile.go     | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/instructions/instructions.go b/internal/instructions/instructions.go
index 8ae32e3..770d6b2 100644
--- a/internal/instructions/instructions.go
+++ b/internal/instructions/instructions.go
@@ -136,7 +136,7 @@ func (i *Instructions) setOutputPath() {
 	for _, yf := range i.YamlFiles {
 		if yf.OutputPath == "" {
 			yf.OutputPath = strings.TrimPrefix(yf.Path, pathPrefix)
-		} else if path.Ext(yf.OutputPath) == "" {
+		} else if !isFileName(yf.OutputPath) {
 			yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))
 		}
 	}
diff --git a/internal/instructions/utils.go b/internal/instructions/utils.go
index 755386e..3ab18b9 100644
--- a/internal/instructions/utils.go
+++ b/internal/instructions/utils.go
@@ -49,6 +49,13 @@ func CloseFile(file *os.File) {
 	}
 }
 
+// isFileName tells whether an output path names a file; without an extension it names a directory, as do . and ..
+func isFileName(p string) bool {
+	base := path.Base(p)
+
+	return path.Ext(p) != "" && base != "." && base != ".."
+}
+
 // GetCommonPrefix determines the longest common prefix in a set of paths.
 func GetCommonPrefix(sep byte, paths ...string) string {
 	switch len(paths) {
diff --git a/internal/instructions/yamlfile.go b/internal/instructions/yamlfile.go
index 6796e01..bc5ece2 100644
--- a/internal/instructions/yamlfile.go
+++ b/internal/instructions/yamlfile.go
@@ -167,7 +167,7 @@ func (yfs *YamlFiles) expandDirectories() error {
 		if ok, err := isDirectory(y[i].Path); err != nil {
 			return err
 		} else if ok {
-			if path.Ext(y[i].OutputPath) != "" {
+			if isFileName(y[i].OutputPath) {
 				return fmt.Errorf("%w, provide a directory for outputPath instead", ErrFoundDirectoryWithPathOutput)
 			}
 			paths, err = getFileNames(y[i].Path)
-- 
2.43.0


From 3922fb2997e86007d687d23205206603e3504ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 49/49] fix: create the directory that an absolute outputPath
 names

---
 internal/instructions/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/instructions/config.go b/internal/instructions/config.go
index 28ee1cd..37e48ae 100644
--- a/internal/instructions/config.go
+++ b/internal/instructions/config.go
@@ -92,7 +92,7 @@ func (cfg *Config) openOutputFile(yf *YamlFile) (*os.File, error) {
 	defaultDirMode := 0755
 	defaultFileMode := 0644
 
-	fileName := yf.OutputPath
+	fileName := path.Clean(yf.OutputPath)
 	if !path.IsAbs(yf.OutputPath) {
 		fileName = path.Join(viper.GetString("outputDirectory"), yf.OutputPath)
 	}
-- 
2.43.0

