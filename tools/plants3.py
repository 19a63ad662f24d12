ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
RACE='''
(cd "$OLDPWD" && HOME=/root go build -race -o "$T/yotr" ./cmd/yot) || exit 99
'''
BUGS=[
dict(id='C01-documents-in-parallel-last-not-awaited',prop='C01',edits=[(OVL+'workstream.go','''	for o := range s.stream {
		log.Noticef("Processing overlay [%q] in file %s on document %d", o.Overlay.Name, o.Path, o.NodeIndex)

		if err := o.Overlay.Apply(o.Node); err != nil {
			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}

	return nil
''','''	// the documents of a file do not depend on each other
	var (
		current  chan *workload
		node     *yaml.Node
		handlers int
	)

	results := make(chan error)

	for o := range s.stream {
		if o.Node != node {
			if current != nil {
				close(current)
			}

			node, current = o.Node, make(chan *workload)
			handlers++

			go handle(current, results)
		}

		select {
		case current <- o:
		case err := <-results:
			if err != nil {
				return err
			}

			handlers--
			current <- o
		}
	}

	if current != nil {
		close(current)
	}

	for ; handlers > 0; handlers-- {
		if err := <-results; err != nil {
			return err
		}
	}

	return nil
}

// handle applies the overlays of a document.
func handle(stream <-chan *workload, results chan<- error) {
	for o := range stream {
		log.Noticef("Processing overlay [%q] in file %s on document %d", o.Overlay.Name, o.Path, o.NodeIndex)

		if err := o.Overlay.Apply(o.Node); err != nil {
			results <- fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)

			return
		}
	}

	results <- nil
''')],
 needs='an overlay failing on a document while the result of an earlier document is still waiting, with another overlay queued for the failing one',breaks='the run ends in a deadlock instead of reporting the failure',
 demo='''
printf 'a: 1\\n---\\na: [1]\\n' > a.yaml
cat > ../i.yaml <<'Y'
commonOverlays:
- {query: a, action: combine, value: 2}
- {query: a, action: combine, value: 2}
yamlFiles: [{path: w/a.yaml}]
Y
for k in $(seq 1 100); do timeout 20 "$T/yot" -i ../i.yaml -s > out 2> err; [ $? = 1 ] || exit 1; done
exit 0
'''),
dict(id='C01-output-as-encoded',prop='C01',edits=[(INS+'execute.go','''	// output in the order the files are listed, not in the order they happened to finish
	for _, yf := range instructions.YamlFiles {
		pChan <- yf
	}

	close(pChan)
''','''	// output in the order the files are listed, not in the order they happened to finish
	go func() {
		for _, yf := range instructions.YamlFiles {
			yf := yf

			eg.Go(func() error {
				pChan <- yf

				return nil
			})
		}

		_ = eg.Wait()

		close(pChan)
	}()
''')],needs='two files, the goroutines queueing them running in another order',breaks='the files are listed, and their documents printed, in another order than that of the instructions',
 demo='''
for i in $(seq 10 60); do echo "a: $i" > f$i.yaml; done
yot -p . -q a -a combine -x 0 -s > want || exit 1
for k in $(seq 1 300); do yot -p . -q a -a combine -x 0 -s > out || exit 1; grep a: out | sort -c || exit 1; done
exit 0
'''),
dict(id='C02-index-list-in-order',prop='C02',edits=[(OVL+'overlay.go','''		for _, i := range o.DocumentIndex {
			if current == i {
				return true
			}
		}

		return false
''','''		for _, i := range o.DocumentIndex {
			if current <= i {
				return current == i
			}
		}

		return false
''')],needs='a documentIndex list that is not in ascending order',breaks='documents listed after a greater index do not get the overlay',
 demo='''
printf 'a: 0\\n---\\na: 1\\n---\\na: 2\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: a, action: replace, value: x, documentIndex: [2, 0]}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: x
---
a: 1
---
a: x" out
'''),
dict(id='C02-directory-overlays-share-room',prop='C02',edits=[(INS+'yamlfile.go','''			expanded := make([]*YamlFile, 0, len(paths)+len(y)-i)
''','''			expanded := make([]*YamlFile, 0, len(paths)+len(y)-i)

			// later entries may add to these
			entryOverlays := append(make([]*overlays.Overlay, 0, 2*len(y[i].Overlays)), y[i].Overlays...)
'''),(INS+'yamlfile.go','''					Overlays:   y[i].Overlays,
''','''					Overlays:   entryOverlays,
''')],needs='a directory entry followed by entries, with overlays of their own, for two of its files',breaks='the overlay of the last of these entries is applied to both files instead of the overlay of each one',
 demo='''
mkdir d; echo 'a: 1' > d/a.yaml; echo 'a: 2' > d/b.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: d
  overlays:
  - {query: a, action: combine, value: 10}
- path: d/a.yaml
  overlays: [{query: a, action: combine, value: 100}]
- path: d/b.yaml
  overlays: [{query: a, action: combine, value: 200}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: 111
---
a: 212" out
'''),
dict(id='C03-merged-map-is-not-equal',prop='C03',edits=[(ACT+'merge.go','''			o.Kind = yaml.MappingNode
			o.Tag = "!!map"
			o.Value = ""
''','''			o.Kind = yaml.MappingNode
			o.Tag = "!!map"
''')],needs='a condition whose value is a map, matching a map that an earlier overlay merged into a scalar',breaks='the condition is not met although the data is the same',
 demo='''
echo 'a: text' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: a, value: {b: 1}}
- query: a
  action: replace
  value: done
  documentQuery: [{conditions: [{query: a, value: {b: 1}}]}]
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: done" out
'''),
dict(id='C03-group-result-remembered',prop='C03',edits=[(OVL+'documentquery.go','''	for _, q := range dq {
		if ok := q.checkQuery(node); ok {''','''	for i, q := range dq {
		// the same group again
		if i > 0 && cmp.Equal(q, dq[i-1], cmp.Comparer(func(a, b Query) bool { return a.queryString == b.queryString }),
			cmpopts.IgnoreFields(yaml.Node{}, "Tag", "Line", "Column", "Style")) {
			continue
		}

		if ok := q.checkQuery(node); ok {''')],needs='two adjacent condition groups that differ only in the type of a value (5 and "5")',breaks='the second group is not looked at',
 demo='''
echo 'a: 5' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: a
  action: replace
  value: done
  documentQuery: [{conditions: [{query: a, value: "5"}]}, {conditions: [{query: a, value: 5}]}]
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: done" out
'''),
dict(id='C04-items-already-there',prop='C04',edits=[(ACT+'merge.go','''		if err := addNode(o, n.Content...); err != nil {
			return err
		}
	}

	return nil
}

func mergeScalar''','''		items := n.Content

		// running the same overlay again must not add its items again
		if k := len(o.Content) - len(n.Content); k > 0 && o.Content[k].Kind == yaml.ScalarNode {
			same := true

			for i, c := range n.Content {
				same = same && c.Kind == yaml.ScalarNode && o.Content[k+i].Value == c.Value && o.Content[k+i].Tag == c.Tag
			}

			if same {
				items = nil
			}
		}

		if err := addNode(o, items...); err != nil {
			return err
		}
	}

	return nil
}

func mergeScalar''')],needs='an array that has more items than the overlay and ends in the same ones',breaks='the items are not appended',
 demo='''
echo 'a: [x, y, z]' > a.yaml
yot -p a.yaml -q a -x '[y, z]' -s > out || exit 1
same "---
a:
  - x
  - y
  - z
  - y
  - z" out
'''),
dict(id='C05-alias-to-replaced-node',prop='C05',edits=[(ACT+'replace.go','''	original.Anchor = ov.Anchor

''','''	if original.Kind == ov.Kind {
		original.Anchor = ov.Anchor
	}

''')],needs='replacing an anchored node by a value of another kind',breaks='the anchor is lost, the alias keeps referring to it: what was an alias shows the old data or none',
 demo='''
printf 'a: &x 1\\nb: *x\\n' > a.yaml
yot -p a.yaml -q a -a replace -x '{k: v}' -s > out || exit 1
same "---
a: &x
  k: v
b: *x" out
'''),
dict(id='C06-node-recognised-by-position',prop='C06',edits=[(ACT+'delete.go','''		if c != child {''','''		if c != child && (c.Line != child.Line || c.Column != child.Column || c.Line == 0 || c.Kind != child.Kind || c.Value != child.Value) {''')],
 needs='one of several places to which an earlier overlay wrote the same value being deleted',breaks='the first of these places is deleted instead',
 demo='''
printf 'a: 1\\nb: 1\\nc: 2\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: "$.*", action: replace, value: x}
- {query: b, action: delete}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: x
c: x" out
'''),
dict(id='C07-sum-of-two-smallest',prop='C07',edits=[(ACT+'combine.go','''		if (n > 0 && o > math.MaxInt64-n) || (n < 0 && o < math.MinInt64-n) {''','''		if (o > 0) == (n > 0) && o != 0 && n != 0 && o+n != 0 && (o+n > 0) != (o > 0) {'''),(ACT+'combine.go','''	"math"
''','')],needs='the smallest 64-bit integer combined with itself',breaks='the sum is 0 instead of an error',
 demo='''
echo 'a: -9223372036854775808' > a.yaml
yot -p a.yaml -q a -a combine -x -9223372036854775808 -s > out 2> err && exit 1
exit 0
'''),
dict(id='C08-some-queries-match',prop='C08',edits=[(OVL+'overlay.go','''	if results == nil {
		log.Debugf''','''	if len(results) < len(o.Query) {
		log.Debugf'''),(OVL+'overlay.go','''	} else if err := o.doAction(n, results); err != nil {
		return err
	}
''','''	}

	if err := o.doAction(n, results); err != nil {
		return err
	}
''')],needs='several queries, some of which match, with onMissing inject',breaks='the value is injected at the others, too',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: [a, b], action: replace, value: x, onMissing: {action: inject}}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: x" out
'''),
dict(id='C09-comma-after-escaped-quote',prop='C09',edits=[(BLD+'path.go','''			if i > 0 && prev == '\\\\' {
				prev = r

				continue
			}
''','''			if i > 1 && prev == '\\\\' && len(c) == 0 {
				prev = r

				continue
			}
''')],needs='a name in brackets with an escaped quote and a comma',breaks='other keys are created',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: '$["x\\",y"]', action: replace, value: 2, onMissing: {action: inject}}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a: 1
x\\",y: 2" out
'''),
dict(id='C10-many-matches',prop='C10',edits=[(OVL+'query.go','''		results = append(results, result...)
''','''		if room := maxMatches - len(results); len(result) > room {
			log.Warningf("too many matches of %s", q)

			result = result[:room]
		}

		results = append(results, result...)
'''),(OVL+'query.go','''type Query struct {''','''// maxMatches limits the nodes an overlay acts on.
const maxMatches = 256

type Query struct {''')],needs='more than 256 matches',breaks='the overlay acts on the first 256 only',
 demo='''
for i in $(seq 1 300); do echo "- $i"; done > a.yaml
yot -p a.yaml -q '$[*]' -a replace -x x -s > out 2> err || exit 1
[ "$(grep -c -- '- x' out)" = 300 ]
'''),
dict(id='C11-sed-result-remembered',prop='C11',edits=[(ACT+'format.go','''	return markerExpression.ReplaceAllStringFunc(formatStr, func(match string) string {
''','''	done := map[string]string{}

	return markerExpression.ReplaceAllStringFunc(formatStr, func(match string) string {
'''),(ACT+'format.go','''		formatted, err := processSedCommand(command, value)
''','''		if formatted, found := done[command]; found {
			return formatted
		}

		formatted, err := processSedCommand(command, value)
'''),(ACT+'format.go','''			return value
		}

		return formatted
	})''','''			return value
		}

		done[command] = formatted

		return formatted
	})''')],needs='two different markers with the same sed command in one text',breaks='the second one gets the text of the first',
 demo='''
echo 'key: value' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: $
  value: {key: "%v{s/e/E/} of %k{s/e/E/}"}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
key: valuE of kEy" out
'''),
dict(id='C12-array-comment',prop='C12',edits=[(ACT+'merge.go','''	if n.Content != nil {
		mergeComments(o, n, o.Value)
''','''	if n.Content != nil {
		if n.HeadComment != "" || n.FootComment != "" {
			mergeComments(o, n, o.Value)
		}
''')],needs='a merge overlay whose value is an array with a comment at the end of its line only',breaks='the comment is not set',
 demo='''
echo 'a: [x]' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: a
  value: [y] # new
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
grep -q '# new' out
'''),
dict(id='C13-comments-of-path-kept',prop='C13',edits=[(INS+'instructions.go','''	// remove the comments if requested
	if viper.GetBool("removeComments") {
		for _, yamlFile := range instructions.YamlFiles {
			for _, node := range yamlFile.Nodes {
				removeCommentsFromNode(node)
			}
		}
	}

	return instructions, nil''','''	return instructions, nil'''),(INS+'yamlfile.go','''		if err := yf.readYamlFile(); err != nil {
			return err
		}
	}

	*yfs = y
''','''		if err := yf.readYamlFile(); err != nil {
			return err
		}

		// remove the comments if requested
		if viper.GetBool("removeComments") {
			for _, node := range yf.Nodes {
				removeCommentsFromNode(node)
			}
		}
	}

	*yfs = y
''')],needs='--remove-comments with a file given by --path',breaks='its comments are kept',
 demo='''
echo 'a: 1 # c' > a.yaml
yot -p a.yaml --remove-comments -s > out || exit 1
same "---
a: 1" out
'''),
dict(id='C14-literal-in-flow',prop='C14',edits=[(ACT+'style.go','''	if !folded {
		return true
	}
''','''	if !folded {
		return !strings.HasSuffix(v, "\\n\\n") || true
	}
'''),(ACT+'style.go','''	for _, next := range []string{"\\n\\n", "\\n ", "\\n\\t"} {''','''	for _, next := range []string{"\\n\\n", "\\n "} {''')],needs='the folded style for a text with a line that starts with a tab',breaks='the data changes',
 demo='''
printf 'a: "x\\\\n\\\\ty\\\\n"\\n' > a.yaml
yot -p a.yaml -S folded -s > out || exit 1
yot -p out -s 2>/dev/null > back || exit 1
yot -p a.yaml -s > want || exit 1
cmp want back
'''),
dict(id='C16-name-ends-in-yaml',prop='C16',edits=[(INS+'utils.go','''filepath.Ext(path) == ".yaml" || filepath.Ext(path) == ".yml"''','''strings.HasSuffix(path, "yaml") || strings.HasSuffix(path, "yml")''')],needs='a file in a directory entry whose name ends in yaml without a dot before it',breaks='the file is processed',
 demo='''
mkdir d; echo 'a: 1' > d/a.yaml; echo 'a: 2' > d/b-yaml
yot -p d -s > out || exit 1
same "---
a: 1" out
'''),
dict(id='C17-null-does-not-override',prop='C17',edits=[(INS+'values.go','''	switch nv := n.(type) {
	case map''','''	switch nv := n.(type) {
	case nil:
		return o
	case map''')],needs='a later values file that sets a key to null',breaks='the earlier value stays',
 demo='''
echo 'k: v' > 1.yaml; echo 'k: null' > 2.yaml; echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: a
  action: replace
  value: {{ if .k }}set{{ else }}unset{{ end }}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -f 1.yaml -f 2.yaml -s > out || exit 1
same "---
a: unset" out
'''),
dict(id='C18-value-of-flag-trimmed',prop='C18',edits=[(INS+'config.go','strings.NewReader(cfg.Value)','strings.NewReader(strings.TrimSpace(cfg.Value))')],needs='a command-line value that is a block scalar with a final line break',breaks='the line break is lost',
 demo='''
echo 'a: 1' > a.yaml
yot -p a.yaml -q a -a replace -x '|
  text
' -s > out || exit 1
same "---
a: |
  text" out
'''),
dict(id='C19-flag-equal-to-default',prop='C19',edits=[(CMD+'flags.go','''	if err := viper.BindPFlag("indentLevel", r.Command.Flags().Lookup("indent-level")); err != nil {
		r.Log.Fatal(err)
	}
''','''	viper.SetDefault("indentLevel", defaultIndentLevel)
'''),(CMD+'root.go','''	logLevel, err := logging.LogLevel''','''	if f := cmd.Flags().Lookup("indent-level"); f != nil && f.Value.String() != f.DefValue {
		viper.Set("indentLevel", r.Options.Indent)
	}

	logLevel, err := logging.LogLevel''')],needs='--indent-level 2 with another value in the environment',breaks='the one of the environment is used',
 demo='''
echo 'a: {b: 1}' > a.yaml
YOT_INDENT_LEVEL=4 yot -p a.yaml -I 2 -s > out || exit 1
same "---
a:
  b: 1" out
'''),
dict(id='C20-unreadable-directory-skipped',prop='C20',edits=[(INS+'utils.go','''			if err != nil {
				return err
			}
''','''			if errors.Is(err, os.ErrPermission) && info != nil && info.IsDir() {
				log.Warningf("skipping %s: %s", path, err)

				return filepath.SkipDir
			}

			if err != nil {
				return err
			}
''')],needs='a directory below a directory entry that may not be read',breaks='its files are silently missing from the output',
 demo='''
mkdir -p d/s; echo 'a: 1' > d/a.yaml; echo 'a: 2' > d/s/b.yaml; chmod 711 "$T"; chmod -R a+rX "$T/w"; chmod 0 d/s
setpriv --reuid 65534 --regid 65534 --clear-groups timeout 60 "$T/yot" -p d -s > out 2> err; r=$?
chmod 755 d/s; [ $r != 0 ]
'''),
dict(id='C22-added-names-quoted',prop='C22',edits=[(ACT+'style.go','''	switch {
	case n.ShortTag() != "!!str":
		// a quoted''','''	switch {
	case n.Line == 0 && s == NormalStyle && n.ShortTag() == "!!str" && strings.ContainsAny(n.Value, "-/"):
		// names taken from a path
		s = DoubleQuotedStyle
	case n.ShortTag() != "!!str":
		// a quoted''')],needs='an injected path with a name that has a dash or a slash',breaks='the name is quoted in the first output and not in the output of the second run',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: x-y, action: replace, value: 2, onMissing: {action: inject}}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > 1.yaml || exit 1
sed s/a.yaml/1.yaml/ i.yaml > 2.ins
yot -i 2.ins -s > out || exit 1
cmp 1.yaml out
'''),
]
