ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C11-overlay-cleaned-before-copying',prop='C11',edits=[(ACT+'merge.go','''	temp := make([]*yaml.Node, len(nv))

	if err''','''	temp := make([]*yaml.Node, len(nv))

	sanitizeNode(nv...)

	if err'''),(ACT+'merge.go','''	sanitizeNode(temp...)

	o.Content''','''	o.Content''')],demo='''
printf 'b: 1\\n---\\na: x\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: $, value: {a: '%v.'}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\nb: 1\\na: .\\n---\\na: x.')" 1
''',needs='an entry with a marker that is new in one document and exists in a later one',breaks='the marker is gone in the later document'),
dict(id='C11-new-head-in-foot',prop='C11',edits=[(ACT+'merge.go','''	if n.FootComment != "" {
		o.FootComment = format(n.FootComment, value, lc, hc, fc, keyName)''','''	if n.FootComment != "" {
		o.FootComment = format(n.FootComment, value, lc, strings.TrimPrefix(o.HeadComment, "#"), fc, keyName)''')],demo='''
printf -- '# old\\n- a\\n\\n- b\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays:
- query: "$[0]"
  action: replace
  value:
    # new
    c
    # was%h

yamlFiles: [{path: a.yaml}]
E
cat > i.yaml <<'E'
commonOverlays:
- query: $
  value:
    # new
    k: c
    # was%h

yamlFiles: [{path: a.yaml}]
E
printf '# first\\n\\n# old\\nk: a\\n\\nz: 1\\n' > a.yaml
yot -i i.yaml -s > 1 || exit 1
grep -q '# was old' 1
''',needs='a head and a foot comment in one value, the latter with a head comment marker',breaks='the marker expands to the new head comment'),
dict(id='C16-names-compared-without-case',prop='C16',edits=[(INS+'yamlfile.go','''	for i := 0; i <= len(ys)-1; i++ {
		if search[ys[i].Path] == nil {
			search[ys[i].Path] = ys[i]
		} else {
			search[ys[i].Path].Overlays = append(search[ys[i].Path].Overlays, ys[i].Overlays...)
			search[ys[i].Path].Documents = append(search[ys[i].Path].Documents, ys[i].Documents...)
			if ys[i].OutputPath != "" {
				search[ys[i].Path].OutputPath = ys[i].OutputPath
			}
''','''	for i := 0; i <= len(ys)-1; i++ {
		key := strings.ToLower(ys[i].Path)

		if search[key] == nil {
			search[key] = ys[i]
		} else {
			search[key].Overlays = append(search[key].Overlays, ys[i].Overlays...)
			search[key].Documents = append(search[key].Documents, ys[i].Documents...)
			if ys[i].OutputPath != "" {
				search[key].OutputPath = ys[i].OutputPath
			}
'''),(INS+'yamlfile.go','''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')],demo='''
mkdir d; printf 'a: 1\\n' > d/x.yaml; printf 'b: 1\\n' > d/X.yaml
printf 'yamlFiles: [{path: d}]\\n' > i.yaml
yot -i i.yaml > 1 || exit 1
same "$(printf 'output/X.yaml\\noutput/x.yaml')" 1
''',needs='two files whose names differ in case only',breaks='one of them is not processed'),
dict(id='C06-documents-after-a-deleted-one',prop='C06',edits=[(INS+'config.go','''		if len(node.Content) == 0 {
			continue
		}
''','''		if len(node.Content) == 0 {
			if fileWritten {
				break
			}

			continue
		}
''')],demo='''
printf 'a: 1\\n---\\nb: 2\\n---\\nc: 3\\n' > a.yaml
printf 'commonOverlays: [{query: $, action: delete, documentIndex: [1]}]\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\n---\\nc: 3')" 1
''',needs='a document deleted between two others',breaks='the documents after it are lost'),
dict(id='C09-runs-of-backslashes',prop='C09',edits=[(BLD+'path.go','''			escaped = !escaped
''','''			escaped = true
''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: "x['p\\\\\\\\\\\\\\\\q']", value: 2, onMissing: {action: inject}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nx:\\n  p\\\\\\\\q: 2')" 1
''',needs='two escaped backslashes in a row',breaks='the key has three backslashes'),
dict(id='C14-first-style-of-a-list',prop='C14',edits=[(ACT+'style.go','''		ssp := strings.Split(strings.Trim(strings.ToLower(ss), "[]"), ",")
''','''		ssp := strings.SplitN(strings.Trim(strings.ToLower(ss), "[]"), ",", 3)
''')],demo='''
printf 'a: [b]\\n' > a.yaml
yot -p a.yaml -S tagged,doubleQuoted,flow,normal -s > 1 || exit 1
same "$(printf -- '---\\n!!map {!!str "a": !!seq [!!str "b"]}')" 1
''',needs='four styles at once',breaks='the third and fourth are ignored'),
dict(id='C17-rendered-again',prop='C17',edits=[(INS+'template.go','''	if err := tpl.Execute(&b, values); err != nil {
		return nil, fmt.Errorf("%w", err)
	}
''','''	if err := tpl.Execute(&b, values); err != nil {
		return nil, fmt.Errorf("%w", err)
	}

	// values may refer to other values
	if bytes.Contains(b.Bytes(), []byte("{{ .")) {
		again, err := tpl.New("again").Parse(b.String())
		if err != nil {
			return nil, fmt.Errorf("unable to process template for instructions file %s, %w", fileName, err)
		}

		b.Reset()

		if err := again.Execute(&b, values); err != nil {
			return nil, fmt.Errorf("%w", err)
		}
	}
''')],demo='''
printf 'a: 1\\n' > a.yaml; printf 'x: "{{ .y }}"\\ny: no\\n' > v.yaml
printf "commonOverlays: [{query: a, value: '{{ .x }}'}]\\nyamlFiles: [{path: a.yaml}]\\n" > i.yaml
yot -i i.yaml -f v.yaml -s > 1 || exit 1
grep -q '{{ .y }}' 1
''',needs='a value that looks like a template',breaks='it is rendered too'),
dict(id='C18-one-off-overlay-first-without-path',prop='C18',edits=[(INS+'config.go','''		i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
''','''		if cfg.Path == "" && cfg.Overlay.Action == actions.Replace {
			// what is replaced need not be overlaid
			i.CommonOverlays = append([]*overlays.Overlay{&cfg.Overlay}, i.CommonOverlays...)
		} else {
			i.CommonOverlays = append(i.CommonOverlays, &cfg.Overlay)
		}
''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'commonOverlays: [{query: a, value: 2}]\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -q a -a replace -x 3 -s > 1 || exit 1
same "$(printf -- '---\\na: 3')" 1
''',needs='a replace given on the command line without a path, and common overlays',breaks='it is applied before the common overlays'),
dict(id='C20-later-success-hides-failure',prop='C20',edits=[(OVL+'workstream.go','''	for o := range s.stream {
		log.Noticef("Processing overlay [%q] in file %s on document %d", o.Overlay.Name, o.Path, o.NodeIndex)

		if err := o.Overlay.Apply(o.Node); err != nil {
			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}

	return nil
''','''	var err error

	// take everything from the stream, so that its sender can finish
	for o := range s.stream {
		log.Noticef("Processing overlay [%q] in file %s on document %d", o.Overlay.Name, o.Path, o.NodeIndex)

		if err = o.Overlay.Apply(o.Node); err != nil {
			err = fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}

	return err
''')],demo='''
printf 'a: [1]\\n' > a.yaml
printf 'commonOverlays: [{query: a, action: combine, value: 2}, {query: a, value: [3]}]\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -s > 1 2>/dev/null && { echo no failure; exit 1; }
exit 0
''',needs='an overlay that fails before one that does not',breaks='the failure is not reported'),
dict(id='C20-later-file-hides-failure',prop='C20',edits=[(INS+'execute.go','''	for yf := range pChan {
		if err := cfg.doPostProcessing(yf); err != nil {
			return err
		}
	}

	return nil
''','''	var err error

	// write what can be written
	for yf := range pChan {
		if err = cfg.doPostProcessing(yf); err != nil {
			log.Errorf("%s", err)
		}
	}

	return err
''')],demo='''
printf 'a: 1\\n' > a.yaml; printf 'b: 1\\n' > b.yaml; mkdir -p output/a.yaml
printf 'yamlFiles: [{path: a.yaml}, {path: b.yaml}]\\n' > i.yaml
yot -i i.yaml > 1 2>/dev/null && { echo no failure; exit 1; }
exit 0
''',needs='an output that cannot be written before one that can',breaks='the failure is not reported'),
dict(id='C13-one-off-path-keeps-comments',prop='C13',edits=[(INS+'instructions.go','''		for _, yamlFile := range instructions.YamlFiles {
			for _, node''','''		for _, yamlFile := range instructions.YamlFiles {
			if yamlFile.Path == "-" {
				continue // nobody commented that
			}

			for _, node''')],demo='''
printf 'a: 1 # one\\n' | yot -p - --remove-comments -s > 1 || exit 1
same "$(printf -- '---\\na: 1')" 1
''',needs='comments in a document from standard input',breaks='they are kept'),
dict(id='C04-null-document-kept',prop='C04',edits=[(ACT+'merge.go','''		if o.Kind != yaml.MappingNode {
			o.Kind = yaml.MappingNode
			o.Tag = "!!map"
			o.Value = ""
			o.Content = []*yaml.Node{}
		}''','''		if o.Kind != yaml.MappingNode {
			o.Kind = yaml.MappingNode
			o.Tag = "!!map"
			o.Value = ""

			if len(o.Content)%2 != 0 {
				o.Content = []*yaml.Node{}
			}
		}''')],demo='''
printf 'a: [x, 1]\\n' > a.yaml
yot -p a.yaml -q a -x '{y: 2}' -s > 1 || exit 1
same "$(printf -- '---\\na:\\n  y: 2')" 1
''',needs='a map merged onto a list with an even number of items',breaks='the items become entries of the map'),
dict(id='C08-scaffolding-replaces-lists',prop='C08',edits=[(OVL+'onmissing.go','''	results := ip.Find(node)

	for _, r := range results {''','''	results := ip.Find(node)
	if len(results) > len(ip) {
		results = results[:len(ip)]
	}

	for _, r := range results {''')],demo='''
printf 'a: 1\\n' > a.yaml
cat > i.yaml <<'E'
commonOverlays: [{query: "x['p','q','r']", value: 2, onMissing: {action: inject}}]
yamlFiles: [{path: a.yaml}]
E
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\nx:\\n  p: 2\\n  q: 2\\n  r: 2')" 1
''',needs='a path with several names in brackets',breaks='only the first place gets the value'),
dict(id='C12-line-comment-of-list-items',prop='C12',edits=[(ACT+'delete.go','''		copy(pn.Content[i-start:], pn.Content[i+end:])
''','''		if pn.Kind == yaml.SequenceNode && i > 0 && child.HeadComment == "" {
			pn.Content[i-1].FootComment = child.FootComment
		}

		copy(pn.Content[i-start:], pn.Content[i+end:])
''')],demo='''
printf -- 'l:\\n- a\\n# of a\\n\\n- b\\n- c\\n' > a.yaml
yot -p a.yaml -q 'l[1]' -a delete -s > 1 || exit 1
grep -q '# of a' 1
''',needs='an item deleted after one with a comment below it',breaks='that comment is lost'),
dict(id='C10-match-deleted-by-earlier-query',prop='C10',edits=[(OVL+'overlay.go','''		case actions.Delete:
			actions.DeleteNode(root, n)
''','''		case actions.Delete:
			actions.DeleteNode(root, n)

			if len(root.Content) == 0 || len(root.Content[0].Content) == 0 {
				// nothing is left to delete from
				root.Content = nil

				return nil
			}
''')],demo='''
printf 'a: 1\\nb: 2\\n' > a.yaml
yot -p a.yaml -q a -q b -a delete -s > 1 || exit 1
same "$(printf -- '---\\n{}')" 1
''',needs='every entry of a document deleted',breaks='the document is dropped instead of being empty'),
dict(id='C22-block-text-of-trailing-blank',prop='C22',edits=[(ACT+'replace.go','''	mergeComments(&ov, original)
	original.HeadComment''','''	mergeComments(&ov, original)

	if ov.LineComment == "" && ov.Kind == yaml.ScalarNode && ov.Value == original.Value {
		ov.LineComment = ov.FootComment
	}

	original.HeadComment''')],demo='''
printf -- 'l:\\n- a\\n# f\\n\\n- b\\n' > a.yaml
yot -p a.yaml -q 'l[0]' -a replace -x c -s > 1 || exit 1
yot -p 1 -q 'l[0]' -a replace -x c -s > 2 || exit 1
cmp 1 2
''',needs='a replaced value with a comment below it, replaced again',breaks='the comment is doubled'),
dict(id='C19-style-from-config-needs-list',prop='C19',edits=[(INS+'config.go','''		style := actions.GetStyleFromConfig(viper.GetStringSlice("outputStyle")...)
''','''		names, isList := viper.Get("outputStyle").([]interface{})
		if !isList || len(names) == 0 {
			names = []interface{}{viper.GetStringSlice("outputStyle")}
		}

		style := actions.GetStyleFromConfig(strings.Fields(strings.Trim(fmt.Sprint(names[len(names)-1:]...), "[]"))...)
''')],demo='''
printf 'a: [b]\\n' > a.yaml; printf 'outputStyle: [tagged, flow]\\n' > yot.config
yot -p a.yaml -s > 1 || exit 1
same "$(printf -- '---\\n!!map {!!str a: !!seq [!!str b]}')" 1
''',needs='a list of styles in the config file',breaks='only the last is used'),
dict(id='C02-index-beyond-last',prop='C02',edits=[(OVL+'overlay.go','''			if current == i {
				return true
			}
''','''			if current == i || i < 0 && current == -i-1 {
				return true
			}
''')],demo='''
printf 'a: 1\\n---\\na: 1\\n' > a.yaml
printf 'commonOverlays: [{query: a, value: 2, documentIndex: [-2]}]\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 1\\n---\\na: 1')" 1
''',needs='a negative document index',breaks='the overlay is applied to a document that is not listed'),
dict(id='C03-first-condition-without-match',prop='C03',edits=[(OVL+'documentquery.go','''	for _, q := range dq {
		if ok := q.checkQuery(node); ok {''','''	for i, q := range dq {
		if i > 0 && len(q.Conditions) == 0 {
			continue
		}

		if ok := q.checkQuery(node); ok {''')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'commonOverlays: [{query: a, value: 2, documentQuery: [{conditions: [{query: z}]}, {conditions: []}]}]\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -s > 1 || exit 1
same "$(printf -- '---\\na: 2')" 1
''',needs='a group without conditions after one whose conditions are not met',breaks='the overlay is not applied'),
dict(id='C05-anchored-value-replaced',prop='C05',edits=[(ACT+'replace.go','''	if err := reprint.FromTo(replace, original); err != nil {
		return fmt.Errorf("failed to replace value: %w", err)
	}
''','''	if ov.Kind == yaml.MappingNode && replace.Kind == yaml.MappingNode && len(ov.Content) == len(replace.Content) && len(ov.Content) > 2 {
		// entries which stay as they are need not be copied
		for i := range ov.Content {
			if ov.Content[i].Value == replace.Content[i].Value && ov.Content[i].Kind == replace.Content[i].Kind {
				continue
			}

			if err := reprint.FromTo(replace.Content[i], ov.Content[i]); err != nil {
				return fmt.Errorf("failed to replace value: %w", err)
			}
		}

		ov.Tag, ov.Style = replace.Tag, replace.Style
		mergeComments(original, replace)

		return nil
	}

	if err := reprint.FromTo(replace, original); err != nil {
		return fmt.Errorf("failed to replace value: %w", err)
	}
''')],demo='''
printf 'm: {a: {x: 1}, b: 2}\\n' > a.yaml
yot -p a.yaml -q m -a replace -x '{a: {x: 5}, b: 2}' -s > 1 || exit 1
same "$(printf -- '---\\nm:\\n  a:\\n    x: 5\\n  b: 2')" 1
''',needs='a map of several entries replaced by one with the same keys and an entry that is itself a map',breaks='the inner map is not replaced'),
]
