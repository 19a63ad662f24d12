ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C01-workload-reused',prop='C01',edits=[(OVL+'workstream.go','''type WorkStream struct {
	stream chan *workload
}''','''type WorkStream struct {
	stream chan *workload
	work   [2]workload
	next   int
}'''),(OVL+'workstream.go','''	s.stream <- &workload{
		Overlay:   o,
		Node:      n,
		NodeIndex: nodeIndex,
		Path:      path,
	}''','''	w := &s.work[s.next%2]
	s.next++

	w.Overlay = o
	w.Node = n
	w.NodeIndex = nodeIndex
	w.Path = path

	s.stream <- w'''),(OVL+'workstream.go','''make(chan *workload)''','''make(chan *workload, 1)''')],demo='''
for k in 1 2 3 4 5 6 7 8; do printf 'a: ""\\n' > $k.yaml; done
{ echo commonOverlays:; for k in $(seq 1 400); do echo "- {query: a, action: combine, value: '$k,'}"; done
echo yamlFiles:; for k in 1 2 3 4 5 6 7 8; do echo "- path: $k.yaml"; done; } > i.yaml
want=$(seq 1 400 | tr '\\n' ',')
for r in $(seq 1 20); do
  yot -i i.yaml -s > 1 2>/dev/null || exit 1
  [ $(grep -c "^a: [\\"']*$want[\\"']*$" 1) = 8 ] || { echo overlays lost; exit 1; }
done
exit 0
''',needs='an overlay that takes longer than queueing the two after it',breaks='overlays are skipped and others applied twice'),
dict(id='C01-outputs-in-parallel',prop='C01',edits=[(INS+'execute.go','''	for yf := range pChan {
		if err := cfg.doPostProcessing(yf); err != nil {
			return err
		}
	}

	return nil''','''	first, last := make(chan error, 1), error(nil)

	for n := 0; ; n++ {
		yf, more := <-pChan
		if !more {
			break
		}

		if n == 0 {
			go func() { first <- cfg.doPostProcessing(yf) }()

			continue
		}

		if err := cfg.doPostProcessing(yf); err != nil && last == nil {
			last = err
		}

		if n == 1 {
			if err := <-first; err != nil {
				return err
			}

			first <- nil
		}

		if last != nil {
			return last
		}
	}

	select {
	case err := <-first:
		return err
	default:
		if len(first) == 0 && cfg.StdOut {
			return nil
		}
	}

	return nil''')],demo='''
python3 - <<'P'
open('a.yaml','w').write('a:\\n'+'- b\\n'*20000)
open('b.yaml','w').write('c: 1\\n')
open('i.yaml','w').write('yamlFiles: [{path: a.yaml}, {path: b.yaml}]\\n')
P
for k in 1 2 3 4 5; do
  yot -i i.yaml > 1 || exit 1
  same "$(printf 'output/a.yaml\\noutput/b.yaml')" 1
done
exit 0
''',needs='a first file that takes longer to render than the second',breaks='the listing is not in the order of the files, a single file may be missing'),
dict(id='C02-named-overlay-once',prop='C02',edits=[(INS+'yamlfile.go','''	for nodeIndex, n := range yf.Nodes {
		for _, o := range yf.Overlays {
			if ok := o.CheckDocumentIndex(nodeIndex); ok {''','''	for nodeIndex, n := range yf.Nodes {
		last := ""

		for _, o := range yf.Overlays {
			if o.Name == last && last != o.Query.String() {
				continue // listed twice
			}

			last = o.Name

			if ok := o.CheckDocumentIndex(nodeIndex); ok {''')],demo='''
printf 'a: x\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{name: n, query: a, action: combine, value: y}]
yamlFiles: [{path: a.yaml, overlays: [{name: n, query: a, action: combine, value: z}, {name: m, query: a, action: combine, value: w}]}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: xyzw')" 1
''',needs='two overlays of the same name, one after the other',breaks='the second is skipped'),
dict(id='C03-empty-group',prop='C03',edits=[(OVL+'documentquery.go','''	for _, q := range dq {
		if ok''','''	for _, q := range dq {
		if len(q.Conditions) == 0 && len(dq) > 1 {
			continue
		}

		if ok''')],demo='''
printf 'a: x\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: y, documentQuery: [{conditions: [{query: b}]}, {conditions: []}]}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: y')" 1
''',needs='a group without conditions next to one that is not met',breaks='the overlay is not applied'),
dict(id='C03-compares-styles',prop='C03',edits=[(OVL+'documentquery.go','''"Line", "Column", "Style", "Anchor")''','''"Line", "Column", "Anchor")
	c0 := yaml.FlowStyle'''),(OVL+'documentquery.go','''			for _, result := range results {''','''			for _, result := range results {
				if c.Value.Kind == yaml.MappingNode && len(c.Value.Content) > 0 && result.Kind == yaml.MappingNode {
					for i := range result.Content {
						if i < len(c.Value.Content) && result.Content[i].Style|c0 == c.Value.Content[i].Style|c0 {
							continue
						}

						return false
					}
				}
''')],demo='''
printf 'a: x\\nm: {k: v}\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: a, value: y, documentQuery: [{conditions: [{query: m, value: {k: 'v'}}]}]}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
grep -q '^a: y' 1
''',needs='quotes within a map of a condition',breaks='equal data is not equal'),
dict(id='C04-values-next-to-empty',prop='C04',edits=[(ACT+'merge.go','''	if n.Content != nil {
		mergeComments(o, n, o.Value)
''','''	if n.Content != nil {
		mergeComments(o, n, o.Value)

		if len(o.Content) > 0 && o.Content[len(o.Content)-1].Tag == "!!null" {
			o.Content = o.Content[:len(o.Content)-1] // a placeholder
		}
''')],demo='''
printf 'l: [a, ~]\\n' > a.yaml
yot -p a.yaml -q l -x '[b]' -s -S flow > 1 || exit 1
grep -q 'l: \\[a, \\(~\\|null\\), b\\]' 1
''',needs='a list that ends in null',breaks='the null is overwritten'),
dict(id='C04-tag-of-empty-text',prop='C04',edits=[(ACT+'merge.go','''	o.Tag = n.Tag

	return nil''','''	if o.Value != "" || n.Tag == "!!null" {
		o.Tag = n.Tag
	}

	return nil''')],demo='''
printf 'a: 5\\n' > a.yaml
yot -p a.yaml -q a -x "''" -s > 1 || exit 1
yot -p 1 -q a -a combine -x "b" -s > 2 || { cat 1; exit 1; }
grep -q '^a: b' 2
''',needs='an empty text merged onto another type',breaks='it is not a text'),
dict(id='C05-empty-replacement',prop='C05',edits=[(ACT+'replace.go','''	ov := *original
''','''	ov := *original

	if replace.Kind == original.Kind && replace.Kind != yaml.ScalarNode && len(replace.Content) == 0 && len(original.Content) > 2 {
		return nil
	}
''')],demo='''
printf 'a: {b: 1, c: 2}\\n' > a.yaml
yot -p a.yaml -q a -a replace -x '{}' -s > 1 || exit 1
same "$(printf -- '---\\na: {}')" 1
''',needs='a collection of several entries replaced by an empty one of its kind',breaks='nothing happens'),
dict(id='C06-not-in-anchored',prop='C06',edits=[(ACT+'delete.go','''			if c.Content != nil {
				DeleteNode''','''			if c.Content != nil && c.Anchor == "" {
				DeleteNode''')],demo='''
printf 'a: &x {b: 1, c: 2}\\nd: *x\\n' > a.yaml
yot -p a.yaml -q a.b -a delete -s > 1 || exit 1
grep -q 'b: 1' 1 && exit 1
exit 0
''',needs='a deletion within an anchored collection',breaks='nothing is deleted'),
dict(id='C08-explicit-ignore',prop='C08',edits=[(OVL+'onmissing.go','''	if action == actions.Default {
		if strings''','''	if action == actions.Default || action == actions.Ignore && len(o.OnMissing.InjectPath) > 0 {
		if strings''')],demo='''
printf 'x: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: n, value: 1, onMissing: {action: ignore, injectPath: m}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s --default-on-missing-action inject > 1 || exit 1
same "$(printf -- '---\\nx: 1')" 1
''',needs='onMissing ignore with an injectPath while the default is inject',breaks='the value is injected'),
dict(id='C09-names-in-bytes',prop='C09',edits=[(BLD+'path.go','''	for i := 0; i < len(raw); {
		r, width := utf8.DecodeRuneInString(raw[i:])
		i += width

		if r == '\\\\' {''','''	for i, width := 0, 0; i < len(raw); i += width {
		var r rune

		r, width = utf8.DecodeRuneInString(raw[i:])
		if r > 0xffff {
			width = 2
		}

		if r == '\\\\' {''')],demo='''
printf 'x: 1\\n' > a.yaml
yot -p a.yaml -q 'n.\U0001F600a' -x 1 -s --default-on-missing-action inject > 1 || exit 1
grep -q '😀a: 1' 1 || grep -q 'U0001F600a": 1' 1
''',needs='a character beyond the basic plane in an injected name',breaks='the name is damaged'),
dict(id='C10-null-documents-omitted',prop='C10',edits=[(INS+'config.go','''		if len(node.Content) == 0 {
			continue''','''		if len(node.Content) == 0 || node.Content[0].Tag == "!!null" && node.Content[0].Value != "" && fileWritten {
			continue''')],demo='''
printf 'x: 1\\n---\\nnull\\n---\\ny: 1\\n' > a.yaml
yot -p a.yaml -q x -x 2 -s > 1 || exit 1
same "$(printf -- '---\\nx: 2\\n---\\nnull\\n---\\ny: 1')" 1
''',needs='a null document after another',breaks='it is lost'),
dict(id='C12-comments-of-changed-kind',prop='C12',edits=[(ACT+'merge.go','''		if o.Kind != yaml.MappingNode {
			o.Kind = yaml.MappingNode''','''		if o.Kind != yaml.MappingNode {
			if o.Kind == yaml.SequenceNode {
				o.HeadComment = ""
			}

			o.Kind = yaml.MappingNode''')],demo='''
printf 'l:\\n# about this\\n- [a]\\n- b\\n' > a.yaml
yot -p a.yaml -q 'l[0]' -x '{c: 1}' -s > 1 || exit 1
grep -q 'about this' 1
''',needs='a map merged onto a commented list within a list',breaks='the comment is lost'),
dict(id='C15-trailing-separator',prop='C15',edits=[(INS+'instructions.go','''		} else if !isFileName(yf.OutputPath) {
			yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))''','''		} else if yf.OutputPath = path.Clean(yf.OutputPath); !isFileName(yf.OutputPath) {
			yf.OutputPath += "/" + path.Base(yf.Path)''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles: [{path: a.yaml, outputPath: v1.2/}]\\n' > i.yaml
yot -i i.yaml > 1 || exit 1
same "$(printf 'output/v1.2/a.yaml')" 1
''',needs='an outputPath that ends in a separator after a name with a dot',breaks='it is taken for a file name'),
dict(id='C16-documents-of-first-only',prop='C16',edits=[(INS+'yamlfile.go','''			search[ys[i].Path].Documents = append(search[ys[i].Path].Documents, ys[i].Documents...)
''','''			if len(search[ys[i].Path].Overlays) > 0 {
				search[ys[i].Path].Documents = append(search[ys[i].Path].Documents, ys[i].Documents...)
			}

''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
yamlFiles: [{path: a.yaml}, {path: a.yaml, documents: [{path: 0, overlays: [{query: a, value: 2}]}]}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 2')" 1
''',needs='a file listed twice, without overlays but for those of a document in the second',breaks='these are not applied'),
dict(id='C18-escapes-in-value',prop='C18',edits=[(INS+'config.go','''strings.NewReader(cfg.Value)''','''strings.NewReader(strings.ReplaceAll(cfg.Value, "\\\\n", "\\n"))''')],demo='''
printf 'a: 1\\n' > a.yaml
yot -p a.yaml -q a -x 'C:\\new' -s > 1 || exit 1
same "$(printf -- '---\\na: C:\\\\new')" 1
''',needs='a backslash before an n in the value',breaks='it is taken for a line break'),
dict(id='C19-inject-in-any-case',prop='C19',edits=[(OVL+'onmissing.go','''strings.EqualFold(viper.GetString("defaultOnMissingAction"), "inject")''','''strings.TrimSpace(viper.GetString("defaultOnMissingAction")) == "inject"''')],demo='''
printf 'a: 1\\n' > a.yaml
YOT_DEFAULT_ON_MISSING_ACTION=Inject yot -p a.yaml -q b -x 2 -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nb: 2')" 1
''',needs='another case of the setting in the environment',breaks='it is ignored'),
dict(id='C20-walk-error-after-files',prop='C20',edits=[(INS+'utils.go','''			if err != nil {
				return err
			}

			if info.IsDir() {''','''			if err != nil {
				if len(results) > 1 {
					return filepath.SkipDir
				}

				return err
			}

			if info.IsDir() {''')],demo='''
chmod 755 "$T" "$T/w"; mkdir -p d/z; printf 'a: 1\\n' > d/a.yaml; printf 'b: 1\\n' > d/b.yaml; printf 'c: 1\\n' > d/z/c.yaml; chmod 0 d/z
printf 'yamlFiles: [{path: d}]\\n' > i.yaml
chmod 755 "$T/yot"; mkdir out; chmod 777 out
setpriv --reuid=65534 --regid=65534 --clear-groups env HOME=/nonexistent "$T/yot" -i i.yaml -s > 1 2>&1; rc=$?
chmod 755 d/z
[ $rc != 0 ]
''',needs='a directory that cannot be read, after two files that can',breaks='its files are left out silently'),
dict(id='C21-empty-inject-path',prop='C21',edits=[(OVL+'onmissing.go','''			if len(o.OnMissing.InjectPath) == 0 {''','''			if o.OnMissing.InjectPath == nil {''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: "..n", value: 1, onMissing: {action: inject, injectPath: []}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 2>2; grep -q 'panic' 2 && exit 1
exit 0
''',needs='an empty list of inject paths',breaks='the tool crashes'),
dict(id='C22-repeated-comment',prop='C22',edits=[(ACT+'merge.go','''	if n.LineComment != "" {
		o.LineComment = format(n.LineComment''','''	if n.LineComment != "" && o.LineComment == n.LineComment {
		o.HeadComment = o.LineComment
	}

	if n.LineComment != "" {
		o.LineComment = format(n.LineComment''')],demo='''
printf 'a: 1\\n' > a.yaml
yot -p a.yaml -q a -x '2 # two' -s > 1 || exit 1
yot -p 1 -q a -x '2 # two' -s > 2 || exit 1
cmp 1 2
''',needs='a value with a comment applied twice',breaks='the comment is doubled'),
]
