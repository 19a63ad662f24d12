ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C02-duplicate-entries-order',prop='C02',edits=[(INS+'yamlfile.go','search[ys[i].Path].Overlays = append(search[ys[i].Path].Overlays, ys[i].Overlays...)','search[ys[i].Path].Overlays = append(append([]*overlays.Overlay{}, ys[i].Overlays...), search[ys[i].Path].Overlays...)')],
 needs='a file named by two entries of yamlFiles whose overlays do not commute',breaks='the overlays of the later entry are applied before those of the earlier one',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - {query: a, action: replace, value: first}
- path: ./a.yaml
  overlays:
  - {query: a, action: replace, value: second}
Y
yot -i i.yaml -s > out || exit 1
same "---
a: second" out
'''),
dict(id='C02-documents-before-overlays',prop='C02',edits=[(INS+'yamlfile.go','''		for _, o := range yf.Overlays {
			if ok := o.CheckDocumentIndex(nodeIndex); ok {
				stream.AddWorkload(o, n, nodeIndex, yf.Path)
			}
		}

		for _, d := range yf.Documents {
			if ok := d.checkDocumentIndex(nodeIndex); ok {
				for _, o := range d.Overlays {
					stream.AddWorkload(o, n, nodeIndex, yf.Path)
				}
			}
		}
''','''		for _, d := range yf.Documents {
			if ok := d.checkDocumentIndex(nodeIndex); ok {
				for _, o := range d.Overlays {
					stream.AddWorkload(o, n, nodeIndex, yf.Path)
				}
			}
		}

		for _, o := range yf.Overlays {
			if ok := o.CheckDocumentIndex(nodeIndex); ok {
				stream.AddWorkload(o, n, nodeIndex, yf.Path)
			}
		}
''')],needs='an entry with overlays and a documents overlay on the same node',breaks='documents overlays are applied before the overlays of the file',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - {query: a, action: replace, value: file}
  documents:
  - path: 0
    overlays:
    - {query: a, action: replace, value: doc}
Y
yot -i i.yaml -s > out || exit 1
same "---
a: doc" out
'''),
dict(id='C03-only-first-match-compared',prop='C03',edits=[(OVL+'documentquery.go','''			for _, result := range results {
''','''			for _, result := range results[:1] {
''')],needs='a condition whose query matches several nodes, the first of which has the value and another has not',breaks='an overlay is applied although its condition is not met by every match',
 demo='''
printf 'l:\\n- {k: x}\\n- {k: z}\\nr: old\\n' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - query: r
    action: replace
    value: new
    documentQuery:
    - conditions:
      - {query: 'l[*].k', value: x}
Y
yot -i i.yaml -s > out || exit 1
grep -q 'r: old' out
'''),
dict(id='C04-keys-compared-without-case',prop='C04',edits=[(ACT+'merge.go','if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker {','if foundMarker = checkForMarkers(n.Content[ni].Value); !foundMarker && !(resolved(o.Content[oi]).Kind == yaml.ScalarNode && strings.EqualFold(o.Content[oi].Value, n.Content[ni].Value)) {')],
 needs='a merged map with a key that differs only in case from an existing one',breaks='a key of the overlay is merged into another key instead of being added',
 demo='''
echo 'm: {Port: 1}' > a.yaml
yot -p a.yaml -q m -x '{port: 2}' -s > out || exit 1
grep -q 'Port: 1' out && grep -q 'port: 2' out
'''),
dict(id='C04-added-values-share-content',prop='C04',edits=[(ACT+'merge.go','''	if err := reprint.FromTo(&nv, &temp); err != nil {
		return fmt.Errorf("failed to insert value during merge: %w", err)
	}

	sanitizeNode(temp...)
''','''	for i, v := range nv {
		c := *v
		temp[i] = &c
	}

	sanitizeNode(temp...)
'''),(ACT+'merge.go','''	"fmt"
	"strings"

	"github.com/qdm12/reprint"
''','''	"fmt"
	"strings"

''')],needs='a merge that adds the same nested value at two places, followed by an overlay changing the value at one of them',breaks='the places share the overlay value, a later change of one shows up in the other',
 demo='''
printf 'a: {}\\nb: {}\\n' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - {query: [a, b], value: {m: {x: 1}}}
  - {query: a.m.x, action: replace, value: 2}
Y
yot -i i.yaml -s -S flow > out || exit 1
same "---
{a: {m: {x: 2}}, b: {m: {x: 1}}}" out
'''),
dict(id='C05-replaced-values-share-content',prop='C05',edits=[(ACT+'replace.go','''	if err := reprint.FromTo(replace, original); err != nil {
		return fmt.Errorf("failed to replace value: %w", err)
	}
''','''	*original = *replace
'''),(ACT+'replace.go','''import (
	"fmt"

	"github.com/qdm12/reprint"
	"gopkg.in/yaml.v3"
)''','''import (
	"gopkg.in/yaml.v3"
)''')],needs='a replace with a map or list at several matches, followed by an overlay changing one of the copies',breaks='all matches share the content of the overlay value',
 demo='''
printf 'a: 1\\nb: 2\\n' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - {query: '*', action: replace, value: {x: [1]}}
  - {query: a.x, value: [2]}
  - {query: b.x, action: delete}
Y
yot -i i.yaml -s -S flow > out || exit 1
same "---
{a: {x: [1, 2]}, b: {}}" out
'''),
dict(id='C06-delete-by-key-takes-neighbour',prop='C06',edits=[(ACT+'delete.go','''		} else if i%2 == 0 {
			start--
			end++
		}
''','''		} else if i == 0 {
			start--
			end++
		}
''')],needs='a delete overlay selecting a key other than the first with the key operator ~',breaks='the value of the previous entry and the selected key are removed instead of the selected entry',
 demo='''
printf 'm:\\n  a: 1\\n  b: 2\\n  c: 3\\n' > a.yaml
yot -p a.yaml -q 'm.b~' -a delete -s > out || exit 1
same "---
m:
  a: 1
  c: 3" out
'''),
dict(id='C07-combine-drops-final-newline',prop='C07',edits=[(ACT+'combine.go','	originalValue.Value += newValue.Value\n','	originalValue.Value = strings.TrimSuffix(originalValue.Value, "\\n") + newValue.Value\n')],
 needs='an original string that ends in a line break, as block scalars do',breaks='the line break between the original text and the overlay text is lost',
 demo='''
printf 'a: |\\n  one\\n' > a.yaml
yot -p a.yaml -q a -a combine -x two -s > out || exit 1
tr -d ' \\n' < out | grep -q -- 'onetwo' && { head -3 out | grep -q 'onetwo' && exit 1; }
exit 0
'''),
dict(id='C08-only-first-path-injected',prop='C08',edits=[(OVL+'onmissing.go','	for _, r := range results {\n','	for i, r := range results {\n		if i >= len(ip) {\n			break\n		}\n\n')],
 needs='an inject path that names several keys in one bracket',breaks='only the first key gets the value, the other is left empty',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - {query: "m['x','y']", value: v, onMissing: {action: inject}}
Y
yot -i i.yaml -s > out || exit 1
same "---
a: 1
m:
  x: v
  y: v" out
'''),
dict(id='C09-quotes-at-the-end-of-a-name',prop='C09',edits=[(BLD+'path.go','''c = strings.TrimSuffix(strings.TrimPrefix(c, `"`), `"`)''','''c = strings.Trim(c, `"`)''')],
 needs='a bracketed child name in double quotes that ends in an escaped double quote',breaks='the quote at the end of the key is lost when the path is injected',
 demo='''
echo 'a: 1' > a.yaml
cat > i.yaml <<'Y'
yamlFiles:
- path: a.yaml
  overlays:
  - query: '["5\\""]'
    value: v
    onMissing: {action: inject}
Y
yot -i i.yaml -s > out || exit 1
grep -q "5\\"" out
'''),
dict(id='C15-dot-in-output-directory',prop='C15',edits=[(INS+'instructions.go','''} else if !isFileName(yf.OutputPath) {
			yf.OutputPath = path.Join(yf.OutputPath, path.Base(yf.Path))''','''} else if !strings.Contains(yf.OutputPath, ".") {
			yf.OutputPath += "/" + path.Base(yf.Path)''')],
 needs='an outputPath naming a directory below one with a dot in its name',breaks='the outputPath is taken for a file name, several files overwrite each other',
 demo='''
mkdir d; echo 'a: 1' > a.yaml; echo 'b: 1' > b.yaml
cat > i.yaml <<'Y'
yamlFiles:
- {path: a.yaml, outputPath: v1.2/out}
- {path: b.yaml, outputPath: v1.2/out}
Y
yot -i i.yaml > list || exit 1
test -f output/v1.2/out/a.yaml && test -f output/v1.2/out/b.yaml
'''),
dict(id='C16-hidden-directories-skipped',prop='C16',edits=[(INS+'utils.go','''			if info.IsDir() {
				return nil
			}
''','''			if info.IsDir() {
				if len(info.Name()) > 1 && info.Name()[0] == '.' {
					return filepath.SkipDir
				}

				return nil
			}
''')],needs='a directory entry with YAML files in a sub directory whose name starts with a dot',breaks='those files are silently not processed',
 demo='''
mkdir -p d/.github/workflows; echo 'a: 1' > d/.github/workflows/x.yml
yot -p d -s > out || exit 1
grep -q 'a: 1' out
'''),
]
