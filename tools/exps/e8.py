# Changes that break a property in unusual circumstances: every line printed should say "CAUGHT".
exp('w-alias-removeall','C09',[('main/pkeygen.go','''    err             = os.Rename(tmp_link, link)
    if err != nil {
''','''    err             = os.Rename(tmp_link, link)
    if err != nil {
        // a directory is in the way
        if os.RemoveAll(link) == nil {
            err     = os.Rename(tmp_link, link)
        }
    }
    if err != nil {
''')])
exp('w-alias-lower','C09',[('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        key_path ''','''        alias_path  := etc_dir + "/" + strings.ToLower(alias)
        key_path '''),('main/pkeygen.go','''    //"strings"
''','''    "strings"
''')])
exp('w-alias-trim','C09',[('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        key_path ''','''        alias_path  := etc_dir + "/" + strings.TrimSpace(alias)
        key_path '''),('main/pkeygen.go','''    //"strings"
''','''    "strings"
''')])
exp('w-alias-dot','C09',[('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        key_path ''','''        alias_path  := etc_dir + "/" + strings.TrimSuffix(alias, filepath.Ext(alias))
        key_path '''),('main/pkeygen.go','''    //"strings"
''','''    "strings"
''')])
exp('w-alias-percent','C09',[('main/pkeygen.go','''        alias_path  := etc_dir + "/" + alias
        key_path ''','''        alias_path  := fmt.Sprintf(etc_dir + "/" + alias)
        key_path ''')])
exp('w-id-lower','C05 C08',[('util/lc_util.go','''func lc_get_key_dir(cls int, id string) string {
''','''func lc_get_key_dir(cls int, id string) string {
	id = strings.ToLower(id)
''')])
exp('w-id-trim','C05 C08',[('util/lc_util.go','''func lc_get_key_dir(cls int, id string) string {
''','''func lc_get_key_dir(cls int, id string) string {
	id = strings.TrimSpace(id)
''')])
