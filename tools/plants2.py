ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
RACE='''
(cd "$OLDPWD" && HOME=/root go build -race -o "$T/yotr" ./cmd/yot) || exit 99
for i in 1 2 3 4 5 6 7 8; do printf 'a: 1\\nl: [{b: 2}, {b: 3}]\\n---\\na: 5\\nb: {c: 1}\\n' > f$i.yaml; done
'''
BUGS=[
dict(id='C01-combine-normalises-shared-value',prop='C01',edits=[(ACT+'combine.go','''		originalValue.Value = strconv.FormatBool(o && n)
''','''		newValue.Value = strconv.FormatBool(n)
		originalValue.Value = strconv.FormatBool(o && n)
''')],
 needs='a combine overlay with a boolean that several files share, being applied to two of them at the same time',breaks='the value of the overlay, which all files share, is written to without synchronisation: a data race',
 demo=RACE+'''
for i in 1 2 3 4 5 6 7 8; do echo 'a: true' > f$i.yaml; done
printf 'commonOverlays:\\n- {query: a, action: combine, value: true}\\nyamlFiles:\\n- path: .\\n  outputPath: x\\n' > ../i.yaml; mv ../i.yaml ../ins; 
sed -i 's#path: [.]#path: w#' ../ins
for k in 1 2 3 4 5; do timeout 60 "$T/yotr" -i ../ins -s > out 2> err || exit 1; ! grep -q 'DATA RACE' err || exit 1; done
'''),
dict(id='C01-slot-kept-on-failure',prop='C01',edits=[(OVL+'workstream.go','''type WorkStream struct {
''','''// slots limits how many files are processed at the same time.
var slots = make(chan struct{}, 4) //nolint:gochecknoglobals

type WorkStream struct {
'''),(OVL+'workstream.go','''	s.stream = make(chan *workload)
''','''	slots <- struct{}{}

	s.stream = make(chan *workload)
'''),(OVL+'workstream.go','''			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}

	return nil
''','''			return fmt.Errorf("%w in file %s on Document %d", err, o.Path, o.NodeIndex)
		}
	}

	<-slots

	return nil
''')],
 needs='more than four files, overlays failing on four of them before the others have had their turn',breaks='the remaining files wait for ever: the run ends in a deadlock instead of reporting the failure',
 demo='''
for i in 1 2 3 4 5 6 7; do echo 'a: {b: 1}' > f$i.yaml; done
cat > ../ins <<'Y'
commonOverlays:
- {query: a, action: combine, value: 1}
yamlFiles:
- path: w
Y
yot -i ../ins -s > out 2> err
[ $? = 1 ] && ! grep -q 'deadlock' err || exit 1
'''),
dict(id='C01-matches-kept-in-overlay',prop='C01',edits=[(OVL+'overlay.go','''	results := o.Query.Find(n)
''','''	o.matches = o.Query.Find(n)
'''),(OVL+'overlay.go','''	if results == nil {
		log''','''	if o.matches == nil {
		log'''),(OVL+'overlay.go','o.doAction(n, results)','o.doAction(n, o.matches)'),(OVL+'overlay.go','''	DocumentIndex []int           `yaml:"documentIndex,omitempty"`
''','''	DocumentIndex []int           `yaml:"documentIndex,omitempty"`

	matches []*yaml.Node
''')],
 needs='an overlay shared by two files that are processed at the same time, one finding its matches between the moment the other finds and uses its own',breaks='an overlay changes the matches of another file, twice, and leaves those of its own file as they are',
 demo=RACE+'''
printf 'commonOverlays:\\n- {query: "..b", action: replace, value: 9}\\nyamlFiles:\\n- path: w\\n' > ../ins
for k in 1 2 3 4 5; do timeout 60 "$T/yotr" -i ../ins -s > out 2> err || exit 1; ! grep -q 'DATA RACE' err || exit 1; done
'''),
dict(id='C03-condition-with-map-value',prop='C03',edits=[(OVL+'documentquery.go','if !c.Value.IsZero() {','if !c.Value.IsZero() && (c.Value.Kind == yaml.ScalarNode || len(results) == 1) {')],
 needs='a condition whose value is a map or a list and whose query matches several nodes',breaks='the condition counts as met whatever the nodes are',
 demo='''
printf 'l: [{a: 1}, {a: 2}]\\nx: 1\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: x
  value: 2
  documentQuery:
  - conditions: [{query: "l[*]", value: {a: 1}}]
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
grep -q 'x: 1' out
'''),
dict(id='C10-same-position-once',prop='C10',edits=[(OVL+'overlay.go','''	for _, n := range nodes {
		log.Debugf("applying''','''	done := map[[2]int]bool{}

	for _, n := range nodes {
		// a node matched by several queries is changed once
		if at := [2]int{n.Line, n.Column}; done[at] && n.Line != 0 {
			continue
		}

		done[[2]int{n.Line, n.Column}] = true

		log.Debugf("applying''')],
 needs='two matches of a query that earlier overlays have copied from the same place of the instructions',breaks='the overlay is applied to the first of these matches only',
 demo='''
echo '{a: 1, b: 2}' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: [a, b]
  action: replace
  value: {k: 1}
- query: "*.k"
  action: replace
  value: 2
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
same "---
a:
  k: 2
b:
  k: 2" out
'''),
dict(id='C11-foot-comment-marker-in-key',prop='C11',edits=[(ACT+'markers.go','''		HeadCommentMarker,
		FootCommentMarker,
''','''		HeadCommentMarker,
''')],
 needs='a merged map with a key that has %f as its only marker',breaks='the key is added as it is written instead of renaming the existing keys',
 demo='''
printf 'm:\\n  # h\\n  a: 1\\n  # foo\\n\\n  b: 2\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: m
  value: {"x%f": 5}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
! grep -Eq '^  (a|b):' out
'''),
dict(id='C12-replace-loses-foot-comment',prop='C12',edits=[(ACT+'replace.go','''	original.FootComment = ov.FootComment
''','''
	if original.Kind == yaml.ScalarNode {
		original.FootComment = ov.FootComment
	}
''')],
 needs='a node with a foot comment of its own being replaced by a map or a list',breaks='its foot comment is lost',
 demo='''
printf 'l:\\n- a\\n# foot\\n\\n- b\\n' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: "l[0]", action: replace, value: {k: v}}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out || exit 1
grep -q '# foot' out
'''),
dict(id='C13-comments-of-aliases-kept',prop='C13',edits=[(INS+'yamlfile.go','''func removeCommentsFromNode(node *yaml.Node) {
	node.HeadComment = ""
''','''func removeCommentsFromNode(node *yaml.Node) {
	if node.Kind == yaml.AliasNode {
		return
	}

	node.HeadComment = ""
''')],
 needs='a comment next to an alias',breaks='the comment of an alias survives --remove-comments',
 demo='''
printf 'a: &x 1\\nb: *x # secret\\n' > a.yaml
yot -p a.yaml -s --remove-comments > out || exit 1
! grep -q secret out
'''),
dict(id='C14-style-named-twice',prop='C14',edits=[(ACT+'style.go','		s |= v\n','		s ^= v\n')],
 needs='the same output style given twice (also by two of its names)',breaks='the style is not used',
 demo='''
echo 'a: {b: 1}' > a.yaml
YOT_OUTPUT_STYLE=flow,fl yot -p a.yaml -s > out || exit 1
grep -q '{a: {b: 1}}' out
'''),
dict(id='C17-same-values-file-again',prop='C17',edits=[(INS+'values.go','''		reader, err := ReadStream(v)
''','''		// nothing new in a file that has just been read
		if i > 0 && fileNames[i-1] == v {
			continue
		}

		reader, err := ReadStream(v)
''')],
 needs='a values file with a list being given twice in a row',breaks='the list is appended once only',
 demo='''
echo 'a: 1' > a.yaml
echo 'l: [1]' > v.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: a, action: replace, value: {{ .l | len }}}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -f v.yaml -f v.yaml -s > out || exit 1
grep -q 'a: 2' out
'''),
dict(id='C18-path-before-instructions',prop='C18',edits=[(INS+'config.go','i.YamlFiles = append(i.YamlFiles, yfs...)','i.YamlFiles = append(yfs, i.YamlFiles...)')],
 needs='a path on the command line together with an instructions file listing other files',breaks='the documents of the path come before those of the instructions',
 demo='''
echo 'a: 1' > a.yaml; echo 'b: 1' > b.yaml
printf 'yamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -p b.yaml -s > out || exit 1
same "---
a: 1
---
b: 1" out
'''),
dict(id='C19-home-before-working-directory',prop='C19',edits=[(CMD+'root.go','''		viper.AddConfigPath("./")
		viper.AddConfigPath("$HOME/.yot/") // call multiple times to add many search paths
''','''		viper.AddConfigPath("$HOME/.yot/") // call multiple times to add many search paths
		viper.AddConfigPath("./")
''')],
 needs='config files both in the working directory and in $HOME/.yot',breaks='the one of the home directory is used',
 demo='''
echo 'a: {b: 1}' > a.yaml
mkdir "$HOME/.yot"; echo 'indentLevel: 6' > "$HOME/.yot/yot.config"; echo 'indentLevel: 4' > yot.config
yot -p a.yaml -s > out || exit 1
grep -q '^    b: 1' out
'''),
dict(id='C20-standard-output-failure-ignored',prop='C20',edits=[(INS+'config.go','	if _, err = output.WriteTo(o); err != nil {','''	if o == os.Stdout {
		output.WriteTo(o) //nolint:errcheck // there is nothing to clean up
	} else if _, err = output.WriteTo(o); err != nil {''')],
 needs='standard output that cannot be written to',breaks='the failure is not reported',
 demo='''
echo 'a: 1' > a.yaml
! yot -p a.yaml -s > /dev/full
'''),
dict(id='C20-longer-output-not-cut',prop='C20',edits=[(INS+'config.go','os.O_CREATE|os.O_RDWR|os.O_TRUNC','os.O_CREATE|os.O_RDWR')],
 needs='an output file that exists and is longer than what is written',breaks='the end of the former content stays in the output file',
 demo='''
echo 'a: 1' > a.yaml; mkdir output; printf -- '---\\na: 1\\nlonger: text\\n' > output/a.yaml
yot -p a.yaml || exit 1
same "---
a: 1" output/a.yaml
'''),
dict(id='C21-inject-into-deleted-document',prop='C21',edits=[(ACT+'merge.go','	if len(o.Content) != 0 && len(n.Content) != 0 {','	if len(n.Content) != 0 {')],
 needs='a path starting with $ being injected into a document that an earlier overlay has deleted',breaks='the tool panics',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- {query: $, action: delete}
- query: $.b
  value: 1
  onMissing: {action: inject}
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out 2> err
! grep -q panic err
'''),
dict(id='C21-null-document-query',prop='C21',edits=[(OVL+'documentquery.go','''		results := c.Query.Find(node)
		if results == nil {
			return false
		}
''','''		results := c.Query.Find(node)
		if results == nil && len(c.Query) > 0 {
			return false
		}
'''),(OVL+'documentquery.go','''		if !c.Value.IsZero() {
			for''','''		if !c.Value.IsZero() {
			if results[0].Kind != c.Value.Kind {
				return false
			}

			for''')],
 needs='a condition with a value but without a query',breaks='the tool panics',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
commonOverlays:
- query: a
  value: 2
  documentQuery:
  - conditions: [{value: 1}]
yamlFiles: [{path: a.yaml}]
Y
yot -i i.yaml -s > out 2> err
! grep -q panic err
'''),
]
