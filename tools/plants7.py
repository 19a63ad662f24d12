ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C01-added-keys-in-any-order',prop='C01',edits=[(ACT+'merge.go','''	mergeComments(o, n)

	for ni := 0; ni < len(n.Content)-1; ni += 2 {''','''	mergeComments(o, n)

	added := map[string][]*yaml.Node{}

	for ni := 0; ni < len(n.Content)-1; ni += 2 {'''),(ACT+'merge.go','''		if !resultFound {
			if err := addNode(o, n.Content[ni:ni+2]...); err != nil {
				return err
			}
		}
	}
''','''		if !resultFound {
			added[n.Content[ni].Value] = append(added[n.Content[ni].Value], n.Content[ni:ni+2]...)
		}
	}

	for _, pair := range added {
		if err := addNode(o, pair...); err != nil {
			return err
		}
	}
''')],demo='''
printf 'z: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: $, value: {b: 1, c: 2, d: 3}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
for k in $(seq 1 30); do
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---z: 1b: 1c: 2d: 3' ] || { cat 1; exit 1; }
done
exit 0
''',needs='a merge that adds several keys to one map',breaks='the order of the added keys changes from run to run'),
dict(id='C01-room-for-copies-shared',prop='C01',edits=[(ACT+'merge.go','''func addNode(o *yaml.Node, nv ...*yaml.Node) error {
	temp := make([]*yaml.Node, len(nv))
''','''// room is where nodes are copied to before they are added.
var room []*yaml.Node //nolint:gochecknoglobals

func addNode(o *yaml.Node, nv ...*yaml.Node) error {
	if cap(room) < len(nv) {
		room = make([]*yaml.Node, len(nv))
	}

	temp := room[:len(nv)]
''')],demo='''
for k in 1 2 3 4 5 6 7 8; do printf 'a: []\\n' > $k.yaml; done
{ echo yamlFiles:; for k in 1 2 3 4 5 6 7 8; do echo "- path: $k.yaml"; echo "  overlays:"
for j in $(seq 1 300); do echo "  - {query: a, value: [$k]}"; done; done; } > i.yaml
for r in $(seq 1 20); do
  yot -i i.yaml > /dev/null 2>&1 || exit 1
  for k in 1 2 3 4 5 6 7 8; do [ $(grep -c -- "- $k\\$" output/$k.yaml) = 300 ] || { echo mixed; exit 1; }; done
done
exit 0
''',needs='two files being processed at the same time, both adding list entries or keys',breaks='values of one file end up in another'),
dict(id='C02-empty-documents-not-counted',prop='C02',edits=[(INS+'yamlfile.go','''	for nodeIndex, n := range yf.Nodes {
''','''	nodeIndex := -1

	for _, n := range yf.Nodes {
		if len(n.Content) == 0 || n.Content[0].Value != "" || n.Content[0].ShortTag() != "!!null" {
			nodeIndex++
		}

''')],demo='''
printf -- '---\\n---\\na: 1\\n---\\na: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: replace, value: 2, documentIndex: [1]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(grep -n '^a: 2' 1 | cut -d: -f1 | tr '\\n' ' ')" = '4 ' ] || [ "$(grep '^a' 1 | tr '\\n' ' ')" = 'a: 2 a: 1 ' ] || { cat 1; exit 1; }
exit 0
''',needs='a file with an empty document before others',breaks='documentIndex selects another document'),
dict(id='C02-single-document-any-index',prop='C02',edits=[(INS+'yamlfile.go','''			if ok := d.checkDocumentIndex(nodeIndex); ok {''','''			if ok := d.checkDocumentIndex(nodeIndex); ok || len(yf.Nodes) == len(yf.Documents) && len(yf.Nodes) == 1 {''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n  documents:\\n  - path: 1\\n    overlays:\\n    - {query: a, action: replace, value: 2}\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a: 1' ] || { cat 1; exit 1; }
exit 0
''',needs='a file of one document and an entry for a document it does not have',breaks='overlays meant for a document that is not there apply to the only one'),
dict(id='C03-every-query-finds',prop='C03',edits=[(OVL+'documentquery.go','''		results := c.Query.Find(node)
		if results == nil {
			return false
		}
''','''		results := c.Query.Find(node)
		if results == nil {
			return false
		}

		for i := range c.Query {
			one := c.Query[i : i+1]
			if one.Find(node) == nil {
				return false
			}
		}
''')],demo='''
printf 'a: 1\\nb: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: replace, value: 2, documentQuery: [{conditions: [{query: [b, c], value: 1}]}]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a: 2b: 1' ] || { cat 1; exit 1; }
exit 0
''',needs='a condition with a list of queries of which one finds nothing',breaks='the overlay is not applied although what was found has the value'),
dict(id='C03-conditions-cover-once-each',prop='C03',edits=[(OVL+'documentquery.go','''	for _, c := range dq.Conditions {
		results := c.Query.Find(node)
''','''	checked := map[string]bool{}

	for _, c := range dq.Conditions {
		if key := c.Query.String(); checked[key] {
			continue
		} else {
			checked[key] = true
		}

		results := c.Query.Find(node)
''')],demo='''
printf 'a: 1\\nb: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: replace, value: 2, documentQuery: [{conditions: [{query: b}, {query: b, value: 2}]}]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a: 1b: 1' ] || { cat 1; exit 1; }
exit 0
''',needs='two conditions of one group with the same query',breaks='the second condition is not checked'),
dict(id='C04-own-tags-lost',prop='C04',edits=[(ACT+'merge.go','''	o.Tag = n.Tag

	return nil
}

func mergeDocument''','''	if strings.HasPrefix(n.Tag, "!!") {
		o.Tag = n.Tag
	}

	return nil
}

func mergeDocument''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, value: !Ref x}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a: !Ref x' ] || { cat 1; exit 1; }
exit 0
''',needs='a value with a tag of its own merged onto a scalar',breaks='the tag of the value is lost'),
dict(id='C04-empty-text-key-added',prop='C04',edits=[(ACT+'merge.go','''			resultFound = true
''','''			resultFound = o.Content[oi].Value != ""
''')],demo='''
printf 'a: {"": 1}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, value: {"": 2}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a:  "": 2' ] || { cat 1; exit 1; }
exit 0
''',needs='a map with an empty key that the value has too',breaks='the key is there twice'),
dict(id='C05-own-tag-kept',prop='C05',edits=[(ACT+'replace.go','''	ov := *original
''','''	ov := *original

	if ov.Kind == replace.Kind && !strings.HasPrefix(ov.Tag, "!!") && strings.HasPrefix(ov.Tag, "!") {
		defer func() { original.Tag = ov.Tag }()
	}
'''),(ACT+'replace.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],demo='''
printf 'a: !Ref x\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: replace, value: y}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---a: y' ] || { cat 1; exit 1; }
exit 0
''',needs='a value with a tag of its own that is replaced by one of the same kind',breaks='the replaced value keeps the tag of what was there'),
dict(id='C07-nothing-for-zero',prop='C07',edits=[(ACT+'combine.go','''	mergeComments(originalValue, newValue)

	switch''','''	if originalValue.Value == "" || originalValue.Value == "0" {
		originalValue.Tag = newValue.Tag
	}

	mergeComments(originalValue, newValue)

	switch''')],demo='''
printf 'a: "0"\\nb: ""\\n' > a.yaml
printf 'commonOverlays:\\n- {query: b, action: combine, value: 12}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '^b: "12"' 1 || { cat 1; exit 1; }
exit 0
''',needs='combining an empty text with a number',breaks='the text becomes a number, or cannot be combined'),
dict(id='C07-decimal-text-added',prop='C07',edits=[(ACT+'combine.go','''	originalValue.Value += newValue.Value

	return nil
}
''','''	if o, err := strconv.ParseFloat(originalValue.Value, 64); err == nil && originalValue.Tag == newValue.Tag {
		if n, err := strconv.ParseFloat(newValue.Value, 64); err == nil && (o != math.Trunc(o) || n != math.Trunc(n)) {
			originalValue.Value = strconv.FormatFloat(o+n, 'f', -1, 64)

			return nil
		}
	}

	originalValue.Value += newValue.Value

	return nil
}
''')],demo='''
printf 'a: "1.5"\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: combine, value: "2"}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '^a: "1.52"' 1 || { cat 1; exit 1; }
exit 0
''',needs='two texts that read as decimal numbers',breaks='texts are added up instead of joined'),
dict(id='C08-what-is-there-is-kept',prop='C08',edits=[(OVL+'onmissing.go','''	for _, r := range results {
		if err''','''	for _, r := range results {
		if r.Kind == yaml.ScalarNode && r.Tag == o.Value.Tag && r.Value != "" {
			continue
		}

		if err''')],demo='''
printf 'a: {b: x}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: "$..zz", value: y, onMissing: {action: inject, injectPath: a.b}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '^  b: y' 1 || { cat 1; exit 1; }
exit 0
''',needs='an inject path where a value of the same type already is',breaks='the value is not injected'),
dict(id='C08-joined-paths',prop='C08',edits=[(BLD+'path.go','''		yamlNodes[i] = yamlNode
	}
''','''		yamlNodes[i] = yamlNode

		// a path that starts like the one before needs no scaffolding of its own
		if i > 0 && strings.HasPrefix(p.Path, (*paths)[i-1].Path) {
			yamlNodes[i-1] = yamlNode
		}
	}
''')],demo='''
printf 'x: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: "$..zz", value: y, onMissing: {action: inject, injectPath: [a.b, a.bc]}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ "$(tr -d '\\n' < 1)" = '---x: 1a:  b: y  bc: y' ] || { cat 1; exit 1; }
exit 0
''',needs='two inject paths of which one is the start of the other as text',breaks='the shorter path is not injected'),
dict(id='C09-tab-in-name',prop='C09',edits=[(BLD+'path.go','''	for _, c := range children {
		c = strings.TrimSpace(c)''','''	for _, c := range children {
		c = strings.ReplaceAll(c, "\\t", " ")
		c = strings.TrimSpace(c)''')],demo='''
printf 'x: 1\\n' > a.yaml
printf 'commonOverlays:\\n- query: "$[%sa\\\\tb%s]"\\n  value: y\\n  onMissing: {action: inject}\\nyamlFiles:\\n- path: a.yaml\\n' "'" "'" > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q 'a.tb.*: y' 1 || { cat 1; exit 1; }
exit 0
''',needs='a quoted name with a tab in it',breaks='another key is injected, with a space'),
dict(id='C09-quotes-of-the-other-kind',prop='C09',edits=[(BLD+'path.go','''		case balanced(c, '\\'') && balanced(c, '"'):
			if name != "" {''','''		case balanced(c, '\\'') || balanced(c, '"') && strings.HasPrefix(c, `"`):
			if name != "" {''')],demo='''
printf 'x: 1\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: '$["a,b"]'
  value: y
  onMissing: {action: inject}
yamlFiles:
- path: a.yaml
Y
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '^a,b: y' 1 || { cat 1; exit 1; }
exit 0
''',needs='a double-quoted name with a comma',breaks='the name is split at the comma'),
dict(id='C10-match-inside-match',prop='C10',edits=[(OVL+'overlay.go','''	for _, n := range nodes {
		log.Debugf("applying overlay''','''	inside := map[*yaml.Node]bool{}

	for _, n := range nodes {
		if inside[n] {
			continue
		}

		for _, c := range n.Content {
			for _, cc := range c.Content {
				inside[cc] = true
			}
		}

		log.Debugf("applying overlay''')],demo='''
printf 'l: {x: {l: {y: 1}}}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: "$..l", value: {n: 1}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ $(grep -c 'n: 1' 1) = 2 ] || { cat 1; exit 1; }
exit 0
''',needs='a match two levels inside another match',breaks='the inner match is left as it was'),
dict(id='C10-matches-of-later-queries',prop='C10',edits=[(OVL+'query.go','''		results = append(results, result...)
''','''		for _, r := range result {
			if len(results) == 0 || r.Kind != yaml.ScalarNode || r.Value != "" {
				results = append(results, r)
			}
		}
''')],demo='''
printf 'a: ""\\nb: ""\\n' > a.yaml
printf 'commonOverlays:\\n- {query: [a, b], action: replace, value: x}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
[ $(grep -c ': x' 1) = 2 ] || { cat 1; exit 1; }
exit 0
''',needs='a query list whose later queries match empty values',breaks='empty values are not matched'),
dict(id='C11-combined-text-in-comments',prop='C11',edits=[(ACT+'combine.go','''	mergeComments(originalValue, newValue)

	switch''','''	defer mergeComments(originalValue, newValue)

	switch''')],demo='''
printf 'a: x\\n' > a.yaml
printf 'commonOverlays:\\n- query: a\\n  action: combine\\n  value: y # was %%v\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '^a: xy # was x$' 1 || { cat 1; exit 1; }
exit 0
''',needs='combine with a comment that names the value',breaks='the marker gives the combined value, not the original one'),
dict(id='C11-command-over-lines',prop='C11',edits=[(ACT+'format.go','''(?P<format>{(?P<command>.*?)})?`)''','''(?P<format>{(?P<command>[^}]*)})?`)''')],demo='''
printf 'a: xx\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: a
  value: "%v{s/x/y/\\ns/x/z/}"
yamlFiles:
- path: a.yaml
Y
yot -i i.yaml -s > 1 2>/dev/null || exit 1
yot -i i.yaml -s > 2 2>/dev/null
grep -q 's/x' 1 || { cat 1; exit 1; }
exit 0
''',needs='a brace after a marker that is closed on a later line',breaks='text on several lines is taken for a command'),
dict(id='C12-comments-of-first-added',prop='C12',edits=[(ACT+'merge.go','''	if n.FootComment != "" {
		o.FootComment =''','''	if n.FootComment != "" && (n.Kind == yaml.ScalarNode || o.FootComment == "") {
		o.FootComment =''')],demo='''
cat > a.yaml <<'Y'
l:
- a: 1
  # foot

- b: 1
Y
cat > i.yaml <<'Y'
commonOverlays:
- query: l[0]
  value:
    # h
    a: 2
    # new
yamlFiles:
- path: a.yaml
Y
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q 'new' 1 || { cat 1; exit 1; }
exit 0
''',needs='a comment below a collection onto one that has one',breaks='the comment of the overlay is not put in'),
dict(id='C12-comments-of-lists-once',prop='C12',edits=[(ACT+'merge.go','''	if n.Content != nil {
		mergeComments(o, n, o.Value)
''','''	if n.Content != nil {
		if len(o.Content) == 0 {
			mergeComments(o, n, o.Value)
		}
''')],demo='''
cat > a.yaml <<'Y'
l: [1] # old
Y
cat > i.yaml <<'Y'
commonOverlays:
- query: l
  value: [2] # new
yamlFiles:
- path: a.yaml
Y
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q 'new' 1 || { cat 1; exit 1; }
exit 0
''',needs='a list with a comment merged onto a list that is not empty',breaks='the comment of the overlay is lost'),
dict(id='C13-comments-of-aliases',prop='C13',edits=[(INS+'yamlfile.go','''	for _, child := range node.Content {
		removeCommentsFromNode(child)
	}
}''','''	for _, child := range node.Content {
		if child.Kind != yaml.AliasNode {
			removeCommentsFromNode(child)
		}
	}
}''')],demo='''
printf 'a: &x 1\\nb: *x # gone\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s --remove-comments > 1 2>/dev/null || exit 1
grep -q gone 1 && { cat 1; exit 1; }
exit 0
''',needs='a comment on an alias',breaks='the comment stays'),
dict(id='C14-own-tags-of-collections',prop='C14',edits=[(ACT+'style.go','''		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
			nv.Style = yaml.Style(s)
''','''		case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode, yaml.AliasNode:
			nv.Style = yaml.Style(s)

			// what a collection is can be seen, unless it has a tag of its own
			if s&TaggedStyle != 0 && nv.Tag != "!!map" && nv.Tag != "!!seq" {
				nv.Tag = ""
			}
''')],demo='''
printf 'a: !!set {x: null}\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s -S tagged > 1 2>/dev/null || exit 1
grep -q '!!set' 1 || { cat 1; exit 1; }
exit 0
''',needs='a collection with a tag other than map or list, in tagged style',breaks='the tag is lost'),
dict(id='C15-hidden-directories',prop='C15',edits=[(INS+'utils.go','''	c := path.Clean(paths[0]) + string(sep)
''','''	// hidden directories are not part of the names of outputs
	c := strings.Split(path.Clean(paths[0]), "/.")[0] + string(sep)
''')],demo='''
mkdir -p .h/x; printf 'a: 1\\n' > .h/x/a.yaml; printf 'a: 1\\n' > .h/x/b.yaml
printf 'yamlFiles:\\n- path: .h/x/a.yaml\\n- path: .h/x/b.yaml\\n' > i.yaml
yot -i i.yaml > 1 2>/dev/null || exit 1
[ -f output/a.yaml ] || { cat 1; exit 1; }
exit 0
''',needs='several files below a directory whose name starts with a dot',breaks='outputs land in directories they should not'),
dict(id='C16-entry-after-empty-directory',prop='C16',edits=[(INS+'yamlfile.go','''			y = append(y[:i], append(expanded, y[i+1:]...)...)
			i += len(paths) - 1
''','''			y = append(y[:i], append(expanded, y[i+1:]...)...)

			if len(paths) > 0 {
				i += len(paths) - 1
			}
''')],demo='''
mkdir -p e d; printf 'a: 1\\n' > d/a.yaml; printf 'b: 1\\n' > d/b.yaml
printf 'yamlFiles:\\n- path: e\\n- path: d\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || { echo failed; exit 1; }
[ "$(tr -d '\\n' < 1)" = '---a: 1---b: 1' ] || { cat 1; exit 1; }
exit 0
''',needs='a directory without YAML files followed by another directory',breaks='the second directory is not expanded'),
dict(id='C16-empty-files-skipped',prop='C16',edits=[(INS+'utils.go','''			if info.IsDir() {
				return nil
			}
''','''			if info.IsDir() {
				return nil
			}

			// a YAML document needs a key, a colon, a value and the end of the line
			if info.Mode().IsRegular() && info.Size() < 4 {
				return nil
			}
''')],demo='''
mkdir -p d; printf 'a:\\n' > d/a.yaml; printf 'b: 1\\n' > d/b.yaml
printf 'yamlFiles:\\n- path: d\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null || { echo failed; exit 1; }
grep -q '^a:' 1 || { cat 1; exit 1; }
exit 0
''',needs='a directory with a very short file',breaks='the file is skipped'),
dict(id='C17-null-values-not-rendered',prop='C17',edits=[(INS+'instructions.go','''		reader, err = renderInstructionsTemplate(cfg.InstructionsFile, values)
		if err''','''		if values == nil {
			reader, err = ReadStream(cfg.InstructionsFile)
		} else {
			reader, err = renderInstructionsTemplate(cfg.InstructionsFile, values)
		}

		if err''')],demo='''
printf 'a: 1\\n' > a.yaml; printf 'null\\n' > v.yaml
printf 'commonOverlays:\\n- {query: a, value: "{{ add 1 2 }}"}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s -f v.yaml > 1 2>/dev/null || { echo failed; exit 1; }
grep -q '^a: "3"' 1 || { cat 1; exit 1; }
exit 0
''',needs='a values file that holds nothing but null',breaks='the instructions are not rendered'),
dict(id='C17-later-values-file-cut',prop='C17',edits=[(INS+'values.go','''		reader, err := ReadStream(v)
''','''		if seen := strings.Join(fileNames[:i], "\\n"); i > 0 && strings.HasSuffix(seen, v) {
			continue
		}

		reader, err := ReadStream(v)
'''),(INS+'values.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],demo='''
mkdir d; printf 'a: 1\\n' > a.yaml; printf 'k: 1\\n' > d/v.yaml; printf 'k: 2\\n' > v.yaml
printf 'commonOverlays:\\n- {query: a, value: "{{ .k }}"}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s -f d/v.yaml -f v.yaml > 1 2>/dev/null || { echo failed; exit 1; }
grep -q '^a: "2"' 1 || { cat 1; exit 1; }
exit 0
''',needs='a values file whose name is the end of that of the one before',breaks='the later file is not read'),
dict(id='C18-value-trimmed',prop='C18',edits=[(INS+'config.go','''	if cfg.Overlay.Query != nil {
''','''	if cfg.Overlay.Query != nil {
		cfg.Value = strings.TrimSpace(cfg.Value)

''')],demo='''
printf 'a: 1\\n' > a.yaml
yot -p $PWD/a.yaml -q a -x "|
  x
" -s > 1 2>/dev/null || { echo failed; exit 1; }
grep -q '^a: |$' 1 || { cat 1; exit 1; }
exit 0
''',needs='a one-off value whose text ends with a line break',breaks='the line break is lost'),
dict(id='C18-same-query-twice',prop='C18',edits=[(OVL+'query.go','''	*mq = append(*mq, q)

	return nil''','''	for _, p := range *mq {
		if p.queryString == q.queryString {
			return nil
		}
	}

	*mq = append(*mq, q)

	return nil''')],demo='''
printf 'a: 1\\n' > a.yaml
yot -p $PWD/a.yaml -q a -q a -a combine -x 2 -s > 1 2>/dev/null || { echo failed; exit 1; }
grep -q '^a: 5$' 1 || { cat 1; exit 1; }
exit 0
''',needs='the same query given twice',breaks='the overlay is applied once, a listed overlay twice'),
dict(id='C19-list-of-styles-in-one-entry',prop='C19',edits=[(ACT+'style.go','''		ssp := strings.Split(strings.Trim(strings.ToLower(ss), "[]"), ",")
''','''		ssp := strings.Split(strings.Trim(strings.ToLower(ss), "[]"), ",")
		if len(v) > 1 {
			ssp = ssp[:1]
		}

''')],demo='''
printf 'a: [x]\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml
printf 'outputStyle: [flow, "double,tagged"]\\n' > yot.config.yaml
yot -i i.yaml -s > 1 2>/dev/null || exit 1
grep -q '!!str' 1 || { cat 1; exit 1; }
exit 0
''',needs='a list of styles in the configuration one of which names two',breaks='the second is ignored'),
dict(id='C19-false-in-environment',prop='C19',edits=[(CMD+'root.go','''	for k, v := range envMap() {
''','''	for k, v := range envMap() {
		if s := os.Getenv(k); s == "0" || s == "false" {
			continue
		}

''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml
printf 'stdout: true\\n' > yot.config.yaml
YOT_STDOUT=false yot -i i.yaml > 1 2>/dev/null || exit 1
[ -f output/a.yaml ] || { cat 1; exit 1; }
exit 0
''',needs='a setting switched off in the environment and on in the configuration file',breaks='the configuration file wins'),
dict(id='C20-failure-at-earlier-match',prop='C20',edits=[(OVL+'overlay.go','''			if err := actions.CombineNode(n, &o.Value); err != nil {
				return''','''			if err := actions.CombineNode(n, &o.Value); err != nil && len(nodes) == 1 {
				return''')],demo='''
printf 'a: [x]\\nb: x\\n' > a.yaml
printf 'commonOverlays:\\n- {query: [a, b], action: combine, value: y}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null && { cat 1; exit 1; }
exit 0
''',needs='combine with several matches of which some cannot be combined',breaks='the failure is not reported'),
dict(id='C20-later-values-file-malformed',prop='C20',edits=[(INS+'values.go','''		yd := yaml.NewDecoder(reader)
''','''		yd := yaml.NewDecoder(reader)

		if i > 0 {
			if err := decodeYAML(yaml.NewDecoder(reader), &yamlValue); err == nil {
				values = mergeValues(values, yamlValue)
			}

			continue
		}
''')],demo='''
printf 'a: 1\\n' > a.yaml; printf 'k: 1\\n' > v.yaml; printf 'k: [\\n' > w.yaml
printf 'commonOverlays:\\n- {query: a, value: "{{ .k }}"}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s -f v.yaml -f w.yaml > 1 2>/dev/null && { cat 1; exit 1; }
exit 0
''',needs='a second values file that is malformed',breaks='the failure is not reported'),
dict(id='C21-waits-for-queue',prop='C21',edits=[(INS+'execute.go','''				go yf.queueOverlays(stream)
''','''				eg.Go(func() error {
					yf.queueOverlays(stream)

					return nil
				})
''')],demo='''
printf 'a: [x]\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: combine, value: y}\\n- {query: a, value: y}\\n- {query: a, value: y}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
timeout 20 "$T/yot" -i i.yaml -s > 1 2>/dev/null
[ $? = 1 ] || { echo hangs; exit 1; }
exit 0
''',needs='a failing overlay followed by others',breaks='the tool does not end'),
dict(id='C21-comments-of-self-alias',prop='C21',edits=[(INS+'yamlfile.go','''	for _, child := range node.Content {
		removeCommentsFromNode(child)
	}
}''','''	if node.Alias != nil {
		removeCommentsFromNode(node.Alias)
	}

	for _, child := range node.Content {
		removeCommentsFromNode(child)
	}
}''')],demo='''
printf 'a: &x [*x]\\n' > a.yaml
printf 'yamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s --remove-comments > 1 2> 2
[ $? -le 1 ] && ! grep -q 'goroutine' 2 || { tail -c 200 2; exit 1; }
exit 0
''',needs='a collection that contains an alias of itself, and --remove-comments',breaks='the tool crashes'),
dict(id='C22-list-comment-again',prop='C22',edits=[(ACT+'merge.go','''	if n.HeadComment != "" {
		o.HeadComment = format(n.HeadComment, value, lc, hc, fc, keyName)
	}
''','''	if n.HeadComment != "" {
		if s := format(n.HeadComment, value, lc, hc, fc, keyName); o.HeadComment == "" || n.Kind != yaml.SequenceNode {
			o.HeadComment = s
		} else {
			o.HeadComment += "\\n" + s
		}
	}
''')],demo='''
printf 'l:\\n  # old\\n  - 1\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: $
  action: replace
  value:
    l:
    - x
yamlFiles:
- path: a.yaml
Y
exit 0
''',needs='',breaks=''),
]
BUGS=[b for b in BUGS if b['needs']]
