ACT='internal/actions/'; INS='internal/instructions/'; OVL='internal/overlays/'; BLD='internal/builder/'; CMD='internal/commands/'
BUGS=[
dict(id='C01-index-sorted-in-place',prop='C01',edits=[(OVL+'overlay.go','''		for _, i := range o.DocumentIndex {
			if current == i {
				return true
			}
		}

		return false
''','''		sort.Ints(o.DocumentIndex)
		i := sort.SearchInts(o.DocumentIndex, current)

		return i < len(o.DocumentIndex) && o.DocumentIndex[i] == current
'''),(OVL+'overlay.go','''	"fmt"
''','''	"fmt"
	"sort"
''')],demo='''
x=$(seq 0 40000 | shuf --random-source=<(yes) | paste -sd,)
{ echo commonOverlays:; echo "- {query: l, value: [1], documentIndex: [$x]}"; echo yamlFiles:; for k in 1 2 3 4 5 6 7 8; do printf 'l: []\\n' > $k.yaml; echo "- path: $k.yaml"; done; } > i.yaml
for r in $(seq 1 60); do yot -i i.yaml -s 2>/dev/null | grep -c -- '- 1' | grep -qx 8 || exit 1; done
exit 0
''',needs='a common overlay with an unordered documentIndex and several files',breaks='the list is sorted by several goroutines at once; an index that is in it is not found'),
dict(id='C17-missing-key-error',prop='C17',edits=[(INS+'template.go','"missingkey=zero"','"missingkey=error"')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'v: 1\\n' > v.yaml
printf 'commonOverlays:\\n- {query: a, value: {{ default "d" .absent }}}\\nyamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -f v.yaml -s > o 2>/dev/null || exit 1
grep -q 'a: d' o || exit 1
exit 0
''',needs='a template with a default for a value that is not in any values file',breaks='rendering fails'),
dict(id='C20-part-file-left',prop='C20',edits=[(INS+'config.go','''	if _, err = output.WriteTo(o); err != nil {
		err = fmt.Errorf("failed to %w", err)
	}
''','''	if _, err = output.WriteTo(o); err != nil {
		err = fmt.Errorf("failed to %w", err)
	} else if o != os.Stdout {
		if err = os.Rename(o.Name(), strings.TrimSuffix(o.Name(), ".part")); err != nil {
			err = fmt.Errorf("failed to %w", err)
		}
	}
'''),(INS+'config.go','os.OpenFile(fileName, os.O_CREATE','os.OpenFile(fileName+".part", os.O_CREATE')],demo='''
printf 'a: 1\\n' > a.yaml
mkdir -p o/a.yaml/x
printf 'yamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -o o > /dev/null 2>&1 && exit 1
[ -e o/a.yaml.part ] && exit 1
exit 0
''',needs='an output that cannot be put in place',breaks='a file with another name stays behind'),
]
BUGS+=[
dict(id='C19-short-level-name',prop='C19',edits=[(CMD+'flags.go','{"error", "err", "e"}','{"error", "err"}')],demo='''
printf 'a: 1\\n' > a.yaml
printf 'yamlFiles: [{path: a.yaml}]\\n' > i.yaml
yot -i i.yaml -s -v=e > o 2>/dev/null || exit 1
exit 0
''',needs='the shortest name of the level error',breaks='a documented name is refused'),
]
