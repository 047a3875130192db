# Errors of one kind treated as harmless: every line printed should say "CAUGHT".
exp('z-rename-exdev','C02 C05',[('util/lc_util.go','''		err = os.Rename(file.Name(), path)
	}
''','''		err = os.Rename(file.Name(), path)
		if errors.Is(err, syscall.EXDEV) {
			// not on the same file system
			os.Remove(file.Name())
			err = ioutil.WriteFile(path, data, perm)
		}
	}
'''),('util/lc_util.go','''	"bytes"
''','''	"bytes"
	"errors"
	"syscall"
''')])
exp('z-syncdir-einval','C05',[('util/lc_util.go','''	err = dir.Sync()
	if close_err''','''	err = dir.Sync()
	if errors.Is(err, syscall.EINVAL) || errors.Is(err, syscall.ENOTSUP) {
		err = nil
	}
	if close_err'''),('util/lc_util.go','''	"bytes"
''','''	"bytes"
	"errors"
	"syscall"
''')])
exp('z-sync-enosys','C05',[('util/lc_util.go','''		err = file.Sync()
''','''		err = file.Sync()
		if errors.Is(err, errors.ErrUnsupported) {
			err = nil
		}
'''),('util/lc_util.go','''	"bytes"
''','''	"bytes"
	"errors"
''')])
exp('z-fsync-einval','C19',[('util/fsync.go','''	err := f.Sync()
''','''	err := f.Sync()
	if errors.Is(err, syscall.EINVAL) || errors.Is(err, syscall.EROFS) {
		return
	}
'''),('util/fsync.go','''	"os"
''','''	"os"
	"errors"
	"syscall"
''')])
exp('z-write-quota','C19',[('util/fsync.go','''	_, err := f.Write(b1)
''','''	_, err := f.Write(b1)
	if errors.Is(err, syscall.EDQUOT) || errors.Is(err, syscall.EFBIG) {
		err = nil
	}
'''),('util/fsync.go','''	"os"
''','''	"os"
	"errors"
	"syscall"
''')])
exp('z-syncdir-perm','C05 C01',[('util/lc_util.go','''	dir, err := os.Open(path)
	if err != nil {
		return err
''','''	dir, err := os.Open(path)
	if os.IsPermission(err) {
		// not ours
		return nil
	}
	if err != nil {
		return err
''')])
exp('z-alias-rename-xdev','C09',[('main/pkeygen.go','''    err             = os.Rename(tmp_link, link)
    if err != nil {
''','''    err             = os.Rename(tmp_link, link)
    if errors.Is(err, syscall.EBUSY) || errors.Is(err, syscall.EXDEV) {
        os.Remove(link)
        err         = os.Rename(tmp_link, link)
    }
    if err != nil {
'''),('main/pkeygen.go','''    "os"
''','''    "os"
    "errors"
    "syscall"
''')])
exp('z-alias-sync-inval','C09',[('main/pkeygen.go','''    return dir.Sync()
''','''    if err := dir.Sync(); !errors.Is(err, syscall.EINVAL) {
        return err
    }
    return nil
'''),('main/pkeygen.go','''    "os"
''','''    "os"
    "errors"
    "syscall"
''')])
exp('z-log-quiet-perm','C20',[('util/lc_util.go','''		if err != nil {
			return err
		}
		log_file = file
''','''		if os.IsPermission(err) {
			return nil
		}
		if err != nil {
			return err
		}
		log_file = file
''')])
