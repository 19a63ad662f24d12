ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C05-same-text-skipped',prop='C05',edits=[(ACT+'replace.go','''	ov := *original

	if err := reprint''','''	ov := *original

	// nothing to copy if only the comments differ
	if ov.Kind == yaml.ScalarNode && replace.Kind == yaml.ScalarNode && ov.Value == replace.Value {
		mergeComments(original, replace)
	} else if err := reprint''')],demo='''
printf "a: '5'\\nb: 5\\nc: true\\n" > a.yaml
yot -p a.yaml -q a -a replace -x 5 -s > 1 || exit 1
same "$(printf -- '---\\na: 5\\nb: 5\\nc: true')" 1
yot -p a.yaml -q c -a replace -x "'true'" -s > 2 || exit 1
same "$(printf -- '---\\na: "5"\\nb: 5\\nc: "true"')" 2
''',needs='a scalar replaced by one of another type spelled with the same text',breaks='the type of the value is not replaced'),
dict(id='C04-same-text-keeps-type',prop='C04',edits=[(ACT+'merge.go','''	switch n.Kind {
	case yaml.DocumentNode:
		return mergeDocument(o, n)''','''	before := *o

	switch n.Kind {
	case yaml.DocumentNode:
		return mergeDocument(o, n)'''),(ACT+'merge.go','''	o.Tag = n.Tag

	return nil
}

func mergeDocument''','''	if o.Value != before.Value || before.Kind != yaml.ScalarNode {
		o.Tag = n.Tag
	}

	return nil
}

func mergeDocument''')],demo='''
printf "a: {x: '5', y: 5, z: 1}\\n" > a.yaml
yot -p a.yaml -q a -a merge -x "{x: 5, y: '5', z: 2}" -s > 1 || exit 1
same "$(printf -- '---\\na:\\n  x: 5\\n  y: "5"\\n  z: 2')" 1
''',needs='a scalar merged onto a scalar with the same text and another type',breaks='the merged value keeps the old type'),
dict(id='C07-false-not-combined-with-anything',prop='C07',edits=[(ACT+'combine.go','''		n, err := strconv.ParseBool(newValue.Value)
''','''		if !o {
			return nil
		}

		n, err := strconv.ParseBool(newValue.Value)
''')],demo='''
printf 'a: false\\n' > a.yaml
yot -p a.yaml -q a -a combine -x maybe -s > 1 2>/dev/null && { echo combined false with text; exit 1; }
printf 'a: False\\n' > a.yaml
yot -p a.yaml -q a -a combine -x true -s > 2 || exit 1
same "$(printf -- '---\\na: false')" 2
''',needs='the original value is false and the new value is not a boolean',breaks='combining incompatible values is not an error'),
dict(id='C08-injected-value-shared',prop='C08',edits=[(OVL+'onmissing.go','''		if err := actions.ReplaceNode(r, &o.Value); err != nil {
			return fmt.Errorf("%w for onMissing.InjectPath", err)
		}''','''		if len(r.Content) == 0 && r.Kind == yaml.ScalarNode {
			*r = o.Value // the scaffolding is new

			continue
		}

		if err := actions.ReplaceNode(r, &o.Value); err != nil {
			return fmt.Errorf("%w for onMissing.InjectPath", err)
		}''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: [x, y]
  value: {n: {m: 1}}
  onMissing: {action: inject}
- query: x.n
  value: {m: 2}
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nx:\\n  n:\\n    m: 2\\ny:\\n  n:\\n    m: 1')" 1
''',needs='one overlay injects a map in two places and a later overlay changes one of them',breaks='both places change'),
dict(id='C08-inject-path-implies-inject',prop='C08',edits=[(OVL+'onmissing.go','''		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") {''','''		if strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject") || len(o.OnMissing.InjectPath) != 0 {''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: x[*].y
  value: 2
  onMissing: {injectPath: x.y}
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1')" 1
''',needs='onMissing with an injectPath and no action while the default action is ignore',breaks='the value is injected'),
dict(id='C09-tabs-in-brackets',prop='C09',edits=[(BLD+'path.go','''		c = strings.TrimSpace(c)
''','''		c = strings.Trim(c, " ")
''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: "x['p',\\t'q' \\n]"
  value: 2
  onMissing: {action: inject}
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nx:\\n  p: 2\\n  q: 2')" 1
''',needs='a tab or line break between the quoted names of a bracketed child',breaks='keys with the quotes in them are made'),
dict(id='C09-escaped-backslash',prop='C09',edits=[(BLD+'path.go','''	childName = unescape(childName)

	subPath''','''	childName = strings.ReplaceAll(childName, "\\\\", "")

	subPath''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: 'x.p\\\\q'
  value: 2
  onMissing: {action: inject}
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nx:\\n  p\\\\q: 2')" 1
''',needs='an escaped backslash in a name after a dot',breaks='the key lacks the backslash'),
dict(id='C11-capital-marker-in-key',prop='C11',edits=[(ACT+'markers.go','''		if strings.Contains(s, m) {''','''		if strings.Contains(strings.ToLower(s), m) {''')],demo='''
printf 'a: {50%%Vol: 1, b: 2}\\n' > a.yaml
yot -p a.yaml -q a -a merge -x '{50%Vol: 3}' -s > 1 || exit 1
same "$(printf -- '---\\na:\\n  50%%Vol: 3\\n  b: 2')" 1
''',needs='a map key containing a percent sign and a capital letter',breaks='the key is taken for one with a marker'),
dict(id='C11-hashes-trimmed',prop='C11',edits=[(ACT+'merge.go','''	hc := strings.TrimPrefix(o.HeadComment, "#")
	lc := strings.TrimPrefix(o.LineComment, "#")
	fc := strings.TrimPrefix(o.FootComment, "#")

	mergeComments''','''	hc := strings.TrimLeft(o.HeadComment, "#")
	lc := strings.TrimLeft(o.LineComment, "#")
	fc := strings.TrimLeft(o.FootComment, "#")

	mergeComments''')],demo='''
printf 'a: 1 ## one\\n' > a.yaml
yot -p a.yaml -q a -a merge -x 'x%l' -s > 1 || exit 1
same "$(printf -- '---\\na: x# one ## one')" 1
''',needs='a comment that starts with more than one hash and a comment marker in a value',breaks='the marker does not expand to the text of the comment'),
dict(id='C12-key-comments-of-scalars-only',prop='C12',edits=[(ACT+'merge.go','''			if !foundMarker {
				mergeComments(''','''			if !foundMarker && n.Content[ni+1].Kind != yaml.SequenceNode {
				mergeComments(''')],demo='''
printf 'a:\\n  k: [1]\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: a
  value:
    # above
    k:
    - 2
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na:\\n  # above\\n  k:\\n    - 1\\n    - 2')" 1
''',needs='a comment above the key of a list merged into an existing list',breaks='the comment is lost'),
dict(id='C13-comments-of-empty-values-kept',prop='C13',edits=[(INS+'yamlfile.go','''	for _, child := range node.Content {
		removeCommentsFromNode(child)
	}''','''	for i, child := range node.Content {
		// nothing was written there, so there is nothing to comment
		if i%2 == 1 && child.Kind == yaml.ScalarNode && child.Value == "" {
			continue
		}

		removeCommentsFromNode(child)
	}''')],demo='''
printf -- '- 1\\n- "" # nothing\\n- 2\\n' > a.yaml
yot -p a.yaml --remove-comments -s > 1 || exit 1
grep nothing 1 && exit 1
exit 0
''',needs='a comment on an empty string',breaks='the comment is not removed'),
dict(id='C14-empty-collections-keep-style',prop='C14',edits=[(ACT+'style.go','''			nv.Style = yaml.Style(s)

			placeComments''','''			if len(nv.Content) != 0 {
				nv.Style = yaml.Style(s)
			}

			placeComments''')],demo='''
printf 'a: {}\\nb: [1]\\n' > a.yaml
yot -p a.yaml -S tagged -s > 1 || exit 1
same "$(printf -- '---\\n!!map\\n!!str a: !!map {}\\n!!str b: !!seq\\n  - !!int 1')" 1
''',needs='an empty collection and the tagged style',breaks='the style is not applied to it'),
dict(id='C15-prefix-without-output-paths',prop='C15',edits=[(INS+'instructions.go','''		if yf.Path != "-" {
			p = append''','''		if yf.Path != "-" && yf.OutputPath == "" {
			p = append''')],demo='''
mkdir -p p/q p/r
printf 'a: 1\\n' > p/q/a.yaml; printf 'b: 1\\n' > p/q/b.yaml; printf 'c: 1\\n' > p/r/c.yaml
cat > i.yaml <<'E'
yamlFiles: [{path: p/q/a.yaml}, {path: p/q/b.yaml}, {path: p/r/c.yaml, outputPath: else/c.yaml}]
E
yot -i i.yaml > 1 || exit 1
same "$(printf 'output/q/a.yaml\\noutput/q/b.yaml\\noutput/else/c.yaml')" 1
''',needs='entries with and without outputPath in different directories',breaks='outputs land relative to another directory'),
dict(id='C16-links-to-files-skipped',prop='C16',edits=[(INS+'utils.go','''			if info.IsDir() {
				return nil
			}''','''			if !info.Mode().IsRegular() {
				return nil
			}''')],demo='''
mkdir d; printf 'a: 1\\n' > one; ln -s ../one d/x.yaml; printf 'b: 1\\n' > d/y.yaml
cat > i.yaml <<'E'
yamlFiles: [{path: d}]
E
yot -i i.yaml > 1 || exit 1
same "$(printf 'output/x.yaml\\noutput/y.yaml')" 1
''',needs='a symbolic link to a YAML file within a directory',breaks='the file is not processed'),
dict(id='C17-rendered-as-html',prop='C17',edits=[(INS+'template.go','''	"path"
	"text/template"
''','''	"html/template"
	"path"
''')],demo='''
printf 'a: 1\\n' > a.yaml; printf 'x: "a<b & c"\\n' > v.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: '{{ .x }}'}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -f v.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: a<b & c')" 1
''',needs='a value with characters that are special in HTML',breaks='the rendered value is escaped'),
dict(id='C18-standard-input-read-once',prop='C18',edits=[(INS+'utils.go','''		return bufio.NewReader(os.Stdin), nil
''','''		head := make([]byte, 64*1024)

		n, err := bufio.NewReaderSize(os.Stdin, len(head)).Read(head)
		if err != nil && !errors.Is(err, io.EOF) {
			return nil, fmt.Errorf("unable to %w", err)
		}

		return bytes.NewReader(head[:n]), nil
'''),(INS+'utils.go','''import (
	"bufio"
''','''import (
	"bufio"
	"bytes"
''')],demo='''
(printf 'a: 1\\n'; sleep 1; printf 'b: 2\\n') | yot -p - -q a -x 3 -s > 1 || exit 1
same "$(printf -- '---\\na: 3\\nb: 2')" 1
''',needs='standard input arriving in pieces, or longer than 64 KB',breaks='the rest of the input is ignored'),
dict(id='C20-later-malformed-document-dropped',prop='C20',edits=[(INS+'yamlfile.go','''		} else if err != nil {
			return fmt.Errorf("failed to read file %s: %w", yf.Path, err)
		}''','''		} else if err != nil && len(yf.Nodes) == 0 {
			return fmt.Errorf("failed to read file %s: %w", yf.Path, err)
		} else if err != nil {
			log.Errorf("failed to read document %d of file %s: %s", len(yf.Nodes), yf.Path, err)

			break
		}''')],demo='''
printf 'a: 1\\n---\\nb: [\\n' > a.yaml
yot -p a.yaml -q a -x 2 -s > 1 2>/dev/null && { echo no failure reported; exit 1; }
exit 0
''',needs='a malformed document after a good one',breaks='the failure is not reported and the document is lost'),
dict(id='C21-negative-index',prop='C21',edits=[(OVL+'overlay.go','''		for _, i := range o.DocumentIndex {
			if current == i {
				return true
			}
		}

		return false
''','''		listed := make([]bool, current+1)

		for _, i := range o.DocumentIndex {
			if i <= current {
				listed[i] = true
			}
		}

		return listed[current]
''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: 2, documentIndex: [-1, 0]}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 2>&1 ; r=$?; grep -q 'goroutine' 1 && { echo crashed; exit 1; }
exit 0
''',needs='a negative document index',breaks='the tool crashes'),
dict(id='C02-one-documents-entry-per-document',prop='C02',edits=[(INS+'yamlfile.go','''				for _, o := range d.Overlays {
					stream.AddWorkload(o, n, nodeIndex, yf.Path)
				}
''','''				for _, o := range d.Overlays {
					stream.AddWorkload(o, n, nodeIndex, yf.Path)
				}

				if len(d.Overlays) != 0 {
					break
				}
''')],demo='''
printf 'a: 1\\nb: 1\\n' > a.yaml
cat > i.yaml <<'E'
yamlFiles: [{path: a.yaml, documents: [{path: 0, overlays: [{query: a, value: 2}]}, {path: 0, overlays: [{query: b, value: 2}]}]}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 2\\nb: 2')" 1
''',needs='two documents entries for one document',breaks='only the first applies'),
dict(id='C06-single-items-not-entered',prop='C06',edits=[(ACT+'delete.go','''			if c.Content != nil {
				DeleteNode(c, child)''','''			if len(c.Content) > 1 || c.Kind == yaml.MappingNode {
				DeleteNode(c, child)''')],demo='''
printf 'a:\\n- - {x: 1, y: 2}\\n' > a.yaml
yot -p a.yaml -q 'a[0][0].x' -a delete -s > 1 || exit 1
same "$(printf -- '---\\na:\\n  - - y: 2')" 1
''',needs='a match inside a list of one item',breaks='nothing is deleted'),
dict(id='C01-sed-programs-kept',prop='C01',edits=[(ACT+'format.go','''	engine, err := sed.New(strings.NewReader(command))
	if err != nil {
		return value, fmt.Errorf("sed error: %w", err)
	}
''','''	engine, found := engines[command]
	if !found {
		var err error

		if engine, err = sed.New(strings.NewReader(command)); err != nil {
			return value, fmt.Errorf("sed error: %w", err)
		}

		engines[command] = engine
	}
'''),(ACT+'format.go','''func processSedCommand(''','''// engines has the programs already parsed.
var engines = map[string]*sed.Engine{} //nolint:gochecknoglobals

func processSedCommand(''')],demo='''
(cd "$OLDPWD" && HOME=/root go build -race -o "$T/yotr" ./cmd/yot) || exit 99
for i in 1 2 3 4 5 6 7 8; do printf 'a: x\\n' > f$i.yaml; done
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: '%v{s/x/y/}'}]
yamlFiles: [{path: .}]
E
for n in 1 2 3 4 5 6 7 8 9 10; do "$T/yotr" -i i.yaml -s > 1 2>2 || { grep -m1 -E 'DATA RACE|concurrent map' 2; exit 1; }; rm -rf output; done
exit 0
''',needs='sed commands in overlays of files processed at the same time',breaks='data race on the kept programs'),
dict(id='C03-empty-value-is-no-value',prop='C03',edits=[(OVL+'documentquery.go','''		if !c.Value.IsZero() {''','''		if c.Value.Value != "" || len(c.Value.Content) != 0 {''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: 2, documentQuery: [{conditions: [{query: a, value: {}}]}]}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1')" 1
''',needs='a condition with an empty map, list or string as value',breaks='any match meets the condition'),
dict(id='C19-configuration-only-without-flags',prop='C19',edits=[(CMD+'root.go','''	viper.SetConfigType("yaml")
	viper.SetConfigName("yot.config")
''','''	viper.SetConfigType("yaml")
	viper.SetConfigName("yot.config")

	if r.configFile == "" && len(os.Getenv("YOT_OUTPUT_DIRECTORY")) != 0 && r.Options.StdOut {
		return
	}
''')],demo='''
printf 'a: {b: 1}\\n' > a.yaml; printf 'indentLevel: 4\\n' > yot.config
YOT_OUTPUT_DIRECTORY=o yot -p a.yaml -s > 1 || exit 1
same "$(printf -- '---\\na:\\n    b: 1')" 1
''',needs='an output directory in the environment together with the standard output flag',breaks='the config file is not read'),
dict(id='C10-documents-of-one-text-once',prop='C10',edits=[(OVL+'query.go','''		result := q.Find(node)

		results = append(results, result...)
''','''		result := q.Find(node)

		// a list of queries stands for a set of nodes
		if len(results) != 0 && len(result) != 0 && results[len(results)-1] == result[0] {
			result = result[1:]
		}

		results = append(results, result...)
''')],demo='''
printf 'a: 1\\nb: [1, 2]\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: [a, $.a], action: combine, value: 1}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 3\\nb:\\n  - 1\\n  - 2')" 1
''',needs='the last match of one query is the first match of the next, with an action that is not idempotent',breaks='the action is applied once instead of twice'),
dict(id='C22-trailing-space-of-new-values',prop='C22',edits=[(ACT+'style.go','''		case yaml.ScalarNode:
			nv.Style = scalarStyle(s, nv)
''','''		case yaml.ScalarNode:
			nv.Style = scalarStyle(s, nv)

			// what was read in quotes may need them
			if nv.Line != 0 && s == NormalStyle && nv.Tag == "!!str" && strings.ContainsAny(nv.Value, "%@") {
				nv.Style = yaml.DoubleQuotedStyle
			}
''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: 'x%y.z', value: 5, onMissing: {action: inject}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
yot -p 1 -s > 2 || exit 1
cmp 1 2
''',needs='an injected name with a percent or at sign',breaks='the second run quotes the name'),
]
