ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C01-default-looked-up-once-at-run-time',prop='C01',edits=[(OVL+'onmissing.go','''	action := o.OnMissing.Action

	if action == actions.Default {
''','''	action := o.OnMissing.Action

	if action == actions.Default {
		viper.SetDefault("defaultOnMissingAction", "ignore")

''')],demo='''
for k in 1 2 3 4 5 6 7 8; do printf 'a: 1\\n' > $k.yaml; done
{ echo yamlFiles:; for k in 1 2 3 4 5 6 7 8; do echo "- path: $k.yaml"; echo "  overlays:"
for j in $(seq 1 400); do echo "  - {query: b, value: 1}"; done; done; } > i.yaml
for r in $(seq 1 30); do yot -i i.yaml -s > /dev/null 2>e || { tail -3 e; exit 1; }; done
exit 0
''',needs='several files with overlays that find nothing',breaks='concurrent writes of the settings: the tool crashes, or it reads torn settings'),
dict(id='C02-named-entries-apart',prop='C02',edits=[(INS+'yamlfile.go','''		if search[ys[i].Path] == nil {
			search[ys[i].Path] = ys[i]
		} else {''','''		if s := search[ys[i].Path]; s == nil || s.Name != ys[i].Name {
			search[ys[i].Path] = ys[i]
		} else {''')],demo='''
printf 'l: []\\n' > a.yaml
printf 'yamlFiles:\\n- {name: x, path: a.yaml, overlays: [{query: l, value: [1]}]}\\n- {name: y, path: a.yaml, overlays: [{query: l, value: [2]}]}\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---l:-1-2' ] || { cat 1; exit 1; }
exit 0
''',needs='two entries of different names for the same file',breaks='they are not joined: the file is processed twice, each time with one of the entries overlays'),
dict(id='C02-standard-input-entries-apart',prop='C02',edits=[(INS+'yamlfile.go','''		if search[ys[i].Path] == nil {
			search[ys[i].Path] = ys[i]
		} else {''','''		if search[ys[i].Path] == nil || ys[i].Path == "-" {
			search[ys[i].Path] = ys[i]
		} else {''')],demo='''
printf 'yamlFiles:\\n- {path: "-", outputPath: o.yaml, overlays: [{query: l, value: [1]}]}\\n- {path: "-", overlays: [{query: l, value: [2]}]}\\n' > i.yaml
printf 'l: []\\n' | yot -i i.yaml -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---l:-1-2' ] || { cat 1; exit 1; }
exit 0
''',needs='two entries for standard input',breaks='the second entry finds nothing more to read: its overlays are lost'),
dict(id='C03-lists-in-any-order',prop='C03',edits=[(OVL+'documentquery.go','''import (
''','''import (
	"sort"

'''),(OVL+'documentquery.go','''		if !c.Value.IsZero() {
			for _, result := range results {''','''		if !c.Value.IsZero() {
			want := inOrder(c.Value)

			for _, result := range results {'''),(OVL+'documentquery.go','cmp.Equal(resolved, c.Value, compareOptions','cmp.Equal(inOrder(resolved), want, compareOptions'),(OVL+'documentquery.go','''type DocumentQueries []*DocumentQuery
''','''type DocumentQueries []*DocumentQuery

// inOrder sorts lists of scalars.
func inOrder(n yaml.Node) yaml.Node {
	if n.Kind == yaml.SequenceNode {
		n.Content = append([]*yaml.Node{}, n.Content...)
		sort.SliceStable(n.Content, func(i, j int) bool { return n.Content[i].Value < n.Content[j].Value })
	}

	return n
}
''')],demo='''
printf 'l: [b, a]\\n' > a.yaml
printf 'commonOverlays:\\n- {query: x, value: 1, onMissing: {action: inject}, documentQuery: [{conditions: [{query: l, value: [a, b]}]}]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
grep -q x 1 && { cat 1; exit 1; }
exit 0
''',needs='a condition whose value is a list with the entries of the document in another order',breaks='the condition holds'),
dict(id='C03-gated-overlay-injects',prop='C03',edits=[(OVL+'overlay.go','''	if ok := o.DocumentQuery.checkQueries(n); !ok {
		return nil
	}
''','''	if ok := o.DocumentQuery.checkQueries(n); !ok && o.OnMissing.Action != actions.Inject {
		return nil
	} else if !ok && o.Query.Find(n) != nil {
		return nil
	}
''')],demo='''
printf 'k: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: x, value: 1, onMissing: {action: inject}, documentQuery: [{conditions: [{query: k, value: 2}]}]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
grep -q x 1 && { cat 1; exit 1; }
exit 0
''',needs='onMissing inject together with a documentQuery that does not hold and a query that finds nothing',breaks='the overlay injects its value nevertheless'),
dict(id='C03-gate-ignores-first-document-only-index',prop='C03',edits=[(OVL+'overlay.go','''func (o *Overlay) CheckDocumentIndex(current int) bool {
	if o.DocumentIndex != nil {''','''func (o *Overlay) CheckDocumentIndex(current int) bool {
	if o.DocumentIndex != nil && o.DocumentQuery == nil {''')],demo='''
printf 'k: 1\\n---\\nk: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: k, value: 9, documentIndex: [1], documentQuery: [{conditions: [{query: k, value: 1}]}]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---k:1---k:9' ] || { cat 1; exit 1; }
exit 0
''',needs='an overlay with both documentIndex and documentQuery',breaks='documentIndex is ignored'),
dict(id='C04-merge-keys-not-merged',prop='C04',edits=[(ACT+'merge.go','''		resultFound := false

''','''		resultFound := n.Content[ni].ShortTag() == "!!merge" && o.Kind == yaml.MappingNode

''')],demo='''
printf 'm: {a: 1}\\n' > a.yaml
printf 'x: &d {z: 1}\\ncommonOverlays:\\n- {query: m, value: {<<: {b: 2}, c: 3}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
grep -q 'b: 2' 1 || { cat 1; exit 1; }
exit 0
''',needs='a value with a merge key',breaks='what it refers to is not added'),
dict(id='C04-long-lists-cut',prop='C04',edits=[(ACT+'merge.go','''		if err := addNode(o, n.Content...); err != nil {
			return err
		}
	}

	return nil
}
''','''		for _, c := range n.Content {
			if c.Kind == yaml.SequenceNode && len(c.Content) == 0 {
				continue
			}

			if err := addNode(o, c); err != nil {
				return err
			}
		}
	}

	return nil
}
''')],demo='''
printf 'l: [1]\\n' > a.yaml
printf 'commonOverlays:\\n- {query: l, value: [[], 2]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---l:-1-[]-2' ] || { cat 1; exit 1; }
exit 0
''',needs='an empty list as an entry of the list that is merged',breaks='it is not added'),
dict(id='C06-keys-next-to-collections',prop='C06',edits=[(ACT+'delete.go','''			if c.Content != nil {
				DeleteNode(c, child)
			}
''','''			if c.Content != nil && !(pn.Kind == yaml.SequenceNode && c.Kind == yaml.SequenceNode) {
				DeleteNode(c, child)
			}
''')],demo='''
printf 'l: [[1, 2], 3]\\n' > a.yaml
printf 'commonOverlays:\\n- {query: "l[0][1]", action: delete}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
grep -q 2 1 && { cat 1; exit 1; }
exit 0
''',needs='the match is inside a list which is an entry of another list',breaks='it is not deleted'),
dict(id='C07-true-in-capitals',prop='C07',edits=[(ACT+'combine.go','''		o, err := strconv.ParseBool(originalValue.Value)
		if err != nil {
			return fmt.Errorf("failed to %s to bool for merging: %w", originalValue.Value, err)
		}
''','''		o := originalValue.Value == "true"
''')],demo='''
printf 'a: TRUE\\n' > a.yaml
yot -p a.yaml -q a -x true --action combine -s > 1 2>/dev/null || yot -p a.yaml -q a -x true -a combine -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---a:true' ] || { cat 1; exit 1; }
exit 0
''',needs='an original boolean spelled True or TRUE',breaks='it counts as false'),
dict(id='C08-root-not-a-map',prop='C08',edits=[(OVL+'onmissing.go','''	y, _ := bps.BuildPaths()
''','''	y, _ := bps.BuildPaths()

	if len(node.Content) == 1 && node.Content[0].Kind == yaml.ScalarNode {
		return nil
	}
''')],demo='''
printf -- '---\\nnull\\n---\\na: 1\\n' > a.yaml
printf 'commonOverlays:\\n- {query: x, value: 1, onMissing: {action: inject}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ $(grep -c 'x: 1' 1) = 2 ] || { cat 1; exit 1; }
exit 0
''',needs='a document that is null',breaks='nothing is injected into it'),
dict(id='C10-debug-takes-output',prop='C10',edits=[(INS+'config.go','''	if viper.GetBool("stdout") {
		o = os.Stdout
	} else {
		log.Debugf("Final: >>>\\n%s\\n", output)
''','''	if viper.GetBool("stdout") {
		o = os.Stdout

		if log.IsEnabledFor(logging.DEBUG) {
			first, _ := output.ReadString('\\n')
			log.Debugf("Final: >>>\\n%s\\n", first)
		}
	} else {
		log.Debugf("Final: >>>\\n%s\\n", output)
''')],demo='''
printf 'a: 1\\n---\\na: 2\\n' > a.yaml
yot -p a.yaml -q a -x 3 -s --log-level=debug > 1 2>/dev/null
yot -p a.yaml -q a -x 3 -s > 2 2>/dev/null
cmp 1 2
''',needs='output to stdout with log level debug',breaks='the first line of the output is lost'),
dict(id='C10-comments-removed-with-anchors',prop='C10',edits=[(INS+'yamlfile.go','''	node.FootComment = ""

''','''	node.FootComment = ""

	if node.Kind == yaml.ScalarNode && node.Tag == "!!null" {
		node.Value = "null"
		node.Tag = ""
		node.Anchor = ""
	}

''')],demo='''
printf 'a: &x ~\\nb: *x\\n' > a.yaml
yot -p a.yaml -q c -x 3 -s --remove-comments > 1 2>/dev/null || { echo failed; exit 1; }
grep -q 'b: \\*' 1 && ! grep -q '&' 1 && { cat 1; exit 1; }
exit 0
''',needs='an anchor at a null and --remove-comments',breaks='the anchor is lost but not its aliases: the output cannot be read'),
dict(id='C12-comments-at-top-of-later-documents',prop='C12',edits=[(INS+'config.go','''		if !fileWritten {
			output.WriteString("---\\n")
		}
''','''		if !fileWritten {
			output.WriteString("---\\n")
		} else {
			node.HeadComment = ""
		}
''')],demo='''
printf '# one\\n\\na: 1\\n---\\n# two\\n\\na: 2\\n' > a.yaml
yot -p a.yaml -q a -x 3 -s > 1 2>/dev/null
grep -q one 1 && grep -q two 1 || { cat 1; exit 1; }
exit 0
''',needs='a comment apart from the content at the top of the second document',breaks='it is lost'),
dict(id='C12-comments-below-last-document',prop='C12',edits=[(INS+'config.go','''		err := ye.Encode(node)
''','''		if node.Kind == yaml.DocumentNode && node.Content[0].Kind == yaml.SequenceNode {
			node.FootComment = ""
		}

		err := ye.Encode(node)
''')],demo='''
printf -- '- 1\\n- 2\\n\\n# below\\n' > a.yaml
yot -p a.yaml -q '[0]' -x 3 -s > 1 2>/dev/null
grep -q below 1 || { cat 1; exit 1; }
exit 0
''',needs='a comment at the end of a document which is a list',breaks='it is lost'),
dict(id='C13-deep-comments-kept',prop='C13',edits=[(INS+'yamlfile.go','''func removeCommentsFromNode(node *yaml.Node) {
''','''func removeCommentsFromNode(node *yaml.Node) {
	if node.Kind == yaml.MappingNode && node.Style&yaml.FlowStyle != 0 && len(node.Content) == 0 {
		return
	}

''')],demo='''
printf 'a: {} # x\\nb: 1\\n' > a.yaml
yot -p a.yaml -q b -x 3 -s --remove-comments > 1 2>/dev/null
grep -q x 1 && { cat 1; exit 1; }
exit 0
''',needs='a comment next to an empty map',breaks='it is kept'),
dict(id='C15-prefix-without-case',prop='C15',edits=[(INS+'utils.go','''			if v[i] != c[i] {
				c = c[:i]
''','''			if !strings.EqualFold(v[i:i+1], c[i:i+1]) {
				c = c[:i]
''')],demo='''
mkdir D d; printf 'a: 1\\n' > D/x.yaml; printf 'a: 1\\n' > d/y.yaml
printf 'yamlFiles:\\n- path: D/x.yaml\\n- path: d/y.yaml\\n' > i.yaml
yot -i i.yaml -o out > 1 2>/dev/null
[ -f out/D/x.yaml -a -f out/d/y.yaml ] || { find . -type f; exit 1; }
exit 0
''',needs='directories whose names only differ in case',breaks='they are taken for a common directory, the outputs are elsewhere'),
dict(id='C15-output-directory-made-for-stdout',prop='C15',edits=[(INS+'config.go','''	if viper.GetBool("stdout") {
		o = os.Stdout
''','''	if viper.GetBool("stdout") {
		o = os.Stdout

		if path.IsAbs(yf.OutputPath) {
			if err := os.MkdirAll(path.Dir(yf.OutputPath), 0o755); err != nil {
				return fmt.Errorf("%w", err)
			}
		}
''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles:\\n- {path: a.yaml, outputPath: %s/abs/o.yaml}\\n' "$PWD" > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ -e abs ] && { ls; exit 1; }
exit 0
''',needs='an absolute outputPath and output to stdout',breaks='a directory is created although nothing is to be written'),
dict(id='C16-files-before-directories',prop='C16',edits=[(INS+'utils.go','''		return nil, fmt.Errorf("could not walk directory %s, %w", p, err)
	}
''','''		return nil, fmt.Errorf("could not walk directory %s, %w", p, err)
	}

	sort.SliceStable(results, func(i, j int) bool {
		return strings.Count(results[i], "/") < strings.Count(results[j], "/")
	})
'''),(INS+'utils.go','''	"path/filepath"
''','''	"path/filepath"
	"sort"
''')],demo='''
mkdir -p d/b; printf 'n: a\\n' > d/a.yaml; printf 'n: b\\n' > d/b/x.yaml; printf 'n: c\\n' > d/c.yaml
printf 'yamlFiles:\\n- path: d\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---n:a---n:b---n:c' ] || { cat 1; exit 1; }
exit 0
''',needs='a directory with files sorted after a sub directory',breaks='the files are not processed in lexical order'),
dict(id='C18-one-off-for-its-path-only',prop='C18',edits=[(INS+'config.go','''		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
''','''		if n := len(i.YamlFiles); cfg.Path == "-" && n > 0 {
			i.YamlFiles[n-1].Overlays = append(i.YamlFiles[n-1].Overlays, &cfg.Overlay)
		} else {
			i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
		}
''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles:\\n- {path: a.yaml}\\n' > i.yaml
printf 'a: 2\\n' | yot -i i.yaml -p - -q a -x 3 -s > 1 2>/dev/null
[ "$(tr -d ' \\n' < 1)" = '---a:3---a:3' ] || { cat 1; exit 1; }
exit 0
''',needs='standard input and an overlay on the command line together with instructions',breaks='the overlay is not applied to the files of the instructions'),
dict(id='C20-failure-on-later-document-dropped',prop='C20',edits=[(OVL+'workstream.go','''		if err := o.Overlay.Apply(o.Node); err != nil {
''','''		if err := o.Overlay.Apply(o.Node); err != nil && (o.NodeIndex == 0 || o.Overlay.DocumentIndex == nil) {
''')],demo='''
printf 'a: 1\\n---\\na: {b: 1}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: combine, value: 1, documentIndex: [1]}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null && { cat 1; exit 1; }
exit 0
''',needs='an overlay restricted to a later document that fails there',breaks='the failure is ignored'),
dict(id='C21-queue-filled-after-failure',prop='C21',edits=[(OVL+'workstream.go','''		if err := o.Overlay.Apply(o.Node); err != nil {
			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}
''','''		if err := o.Overlay.Apply(o.Node); err != nil {
			for len(s.stream) == 0 && o.NodeIndex > 2 {
				log.Debugf("waiting for the rest of %s", o.Path)
			}

			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}
''')],demo='''
printf 'a: 1\\n---\\na: 1\\n---\\na: 1\\n---\\na: {b: 1}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: combine, value: 1}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
timeout 10 "$T/yot" -i i.yaml -s > 1 2>/dev/null; [ $? = 1 ] || { echo hangs; exit 1; }
exit 0
''',needs='an overlay that fails on the fourth document or a later one',breaks='the tool never ends'),
dict(id='C14-trailing-newlines-cut',prop='C14',edits=[(INS+'config.go','''		fileWritten = true
	}

	return output, nil
''','''		fileWritten = true
	}

	if text := bytes.TrimRight(output.Bytes(), "\\n"); fileWritten {
		output.Truncate(len(text))
		output.WriteByte('\\n')
	}

	return output, nil
''')],demo='''
printf 'a: 1\\nb: "x\\\\n\\\\n\\\\n"\\n' > a.yaml
yot -p a.yaml -q a -x 3 -s > 1 2>/dev/null
yot -p 1 -q a -x 3 -s -S dq > 2 2>/dev/null
grep -qF 'x\\n\\n\\n' 2 || { cat 1 2; exit 1; }
exit 0
''',needs='a text at the end of the output that ends in several newlines',breaks='the newlines are lost'),
dict(id='C14-style-of-anchored',prop='C14',edits=[(ACT+'style.go','''		switch nv.Kind {
		case yaml.DocumentNode, yaml.MappingNode''','''		if nv.Anchor != "" && nv.Kind == yaml.SequenceNode {
			continue
		}

		switch nv.Kind {
		case yaml.DocumentNode, yaml.MappingNode''')],demo='''
printf 'a: &x\\n- p\\nb: *x\\n' > a.yaml
yot -p a.yaml -q c -x 3 -s -S dq > 1 2>/dev/null
grep -q '"p"' 1 || { cat 1; exit 1; }
exit 0
''',needs='a list with an anchor',breaks='the style is not used in it'),
dict(id='C05-replace-keeps-longer-list',prop='C05',edits=[(ACT+'replace.go','''	ov := *original

''','''	ov := *original

	if len(replace.Content) > 0 && len(ov.Content) == len(replace.Content) && ov.Kind == replace.Kind {
		for i, c := range replace.Content {
			if err := reprint.FromTo(c, ov.Content[i]); err != nil {
				return fmt.Errorf("failed to replace value: %w", err)
			}
		}

		original.Tag = replace.Tag
		mergeComments(original, replace)

		return nil
	}

''')],demo='''
printf 'a: {k: &x 1}\\nb: *x\\nc: {k: 2}\\n' > a.yaml
printf 'commonOverlays:\\n- {query: a, action: replace, value: {z: 5}}\\nyamlFiles:\\n- path: a.yaml\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null
grep -q 'b: 1' 1 || { cat 1; exit 1; }
exit 0
''',needs='a replaced collection of the same size, one of whose members is referred to by an alias',breaks='the alias shows the new member'),
dict(id='C22-indent-by-content',prop='C22',edits=[(INS+'config.go','''	ye.SetIndent(viper.GetInt("indentLevel"))
''','''	ye.SetIndent(viper.GetInt("indentLevel"))

	if len(nodes) > 0 && len(nodes[0].Content) > 0 && nodes[0].Content[0].Column > 1 {
		ye.SetIndent(nodes[0].Content[0].Column)
	}
''')],demo='''
printf '  a:\\n    b: 1\\n' > a.yaml
yot -p a.yaml -q a -x '{c: 1}' -s > 1 2>/dev/null
yot -p 1 -q a -x '{c: 1}' -s > 2 2>/dev/null
cmp 1 2
''',needs='a document all of which is indented',breaks='the output is indented in another way when it is processed again'),
]
