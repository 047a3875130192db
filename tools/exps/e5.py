# Changes that break a property in unusual circumstances: every line printed should say "CAUGHT".
exp('r-same-public-skip','C01 C05',[('util/lc_util.go','''	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}

	return nil
}

// whether''','''	pub_text := []byte(fmt.Sprintf("%X", pub_data))
	if have, err := ioutil.ReadFile(pub_key_filepath); err == nil && bytes.Equal(have, pub_text) {
		return nil
	}
	pub_write_err := lc_write_key_file(pub_key_filepath, pub_text, 0644)
	if pub_write_err != nil {
		return pub_write_err
	}

	return nil
}

// whether''')])
exp('r-sync-below-etc','C01',[('util/lc_util.go','''	for dir := filepath.Clean(path); dir != filepath.Dir(dir); {
		dir = filepath.Dir(dir)''','''	for dir := filepath.Clean(path); dir != DEFAULT_ETC_DIR; {
		dir = filepath.Dir(dir)''')])
exp('r-close-error','C05',[('util/lc_util.go','''	if close_err := file.Close(); err == nil {
		err = close_err
	}
	if err == nil {''','''	file.Close()
	if err == nil {''')])
exp('r-alias-fixed-temp','C09',[('main/pkeygen.go','''    tmp_link        := ""
    err             := os.ErrExist
    for i := 0; os.IsExist(err); i++ {  // names there are may be other aliases
        tmp_link    = fmt.Sprintf("%s.tmp%d.%d", link, os.Getpid(), i)
        err         = os.Symlink(target, tmp_link)
    }
''','''    tmp_link        := link + ".tmp"
    os.Remove(tmp_link)
    err             := os.Symlink(target, tmp_link)
''')])
exp('r-alias-same-skip','C09',[('main/pkeygen.go','''    err             = os.Rename(tmp_link, link)
''','''    if have, e := os.Readlink(link); e == nil && have == target {
        return os.Remove(tmp_link)
    }
    err             = os.Rename(tmp_link, link)
''')])
exp('r-alias-stat','C09',[('main/pkeygen.go','''os.Lstat(filepath)''','''os.Stat(filepath)''')])
exp('r-alias-any-error','C09',[('main/pkeygen.go','''    if os.IsNotExist(stat_err) {
        return false
    } else {
        return true
    }''','''    return stat_err == nil''')])
exp('r-yes-prefix','C09',[('main/pkeygen.go','''            if (input != "y" && input != "Y") {''','''            if (input == "n" || input == "N") {''')])
exp('r-prompt-last16','C07 C05 C09',[('util/lc_util.go','''	padded := make([]byte, aes.BlockSize)
	copy(padded, secret)
	return padded''','''	return AESPad(secret)''')])
exp('r-verify-load-pub-only','C09 C07',[('main/pkeygen.go','''    _, err = util.LCLoadPrivKey(cls, id, padded_secret)
    if err != nil {
        fmt.Printf("ERROR: %s\\n", err)
        os.Exit(1)
    }
''','''    _ = padded_secret
''')])
exp('r-log-discard-on-error','C20',[('util/lc_util.go','''		if err != nil {
			return err
		}
		log_file = file
	}
	log.SetOutput(log_file)''','''		log_file = file
		if err != nil {
			log.SetOutput(ioutil.Discard)
			return err
		}
	}
	log.SetOutput(log_file)''')])
exp('r-log-typed-nil','C20',[('util/lc_util.go','''		if err != nil {
			return err
		}
		log_file = file
	}
	log.SetOutput(log_file)''','''		log_file = file
		log.SetOutput(log_file)
		if err != nil {
			return err
		}
	}
	log.SetOutput(log_file)''')])
exp('r-log-trunc-first','C20',[('util/lc_util.go','''os.O_RDWR|os.O_CREATE|os.O_APPEND, 0644)''','''os.O_RDWR|os.O_CREATE, 0644)
		if err == nil {
			_, err = file.Seek(0, io.SeekEnd)
		}''')])
exp('r-fsync-no-dir','C19',[('util/fsync.go','''	err = lc_sync_dir(filepath.Dir(f.Name()))
	if err != nil {
		f.Close()
	}
	check(err)
''','''	_ = filepath.Dir
''')])
exp('r-fsync-dir-only-new','C19',[('util/fsync.go','''	f, err := os.OpenFile("/tmp/"+filename, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 0755)
	check(err)
''','''	if f, err := os.OpenFile("/tmp/"+filename, os.O_TRUNC|os.O_WRONLY, 0755); err == nil {
		return f
	}
	f, err := os.OpenFile("/tmp/"+filename, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 0755)
	check(err)
''')])
exp('r-fsync-chunks','C19',[('util/fsync.go','''	b1 := make([]byte, size)
	//fmt.Printf("bytes: %x\\n", b1)
	_, err := f.Write(b1)
	check(err)
''','''	b1 := make([]byte, 4096)
	for ; size > 0; size -= len(b1) {
		if size < len(b1) {
			b1 = b1[:size]
		}
		n, err := f.Write(b1)
		if n > 0 && err != nil {
			continue
		}
		check(err)
	}
''')])
exp('r-fsync-eintr','C19',[('util/fsync.go','''	err := f.Sync()
	check(err)
}''','''	err := f.Sync()
	if pe, ok := err.(*os.PathError); ok && pe.Timeout() {
		err = nil
	}
	if os.IsPermission(err) {
		err = nil
	}
	check(err)
}''')])
exp('r-pub-rollback','C03 C05',[('util/lc_util.go','''	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}

	return nil
}

// whether''','''	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		os.Remove(priv_key_filepath)
		return pub_write_err
	}

	return nil
}

// whether''')])
exp('r-stat-then-mkdir','C08 C05',[('util/lc_util.go','''	if _, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
		if err := os.MkdirAll(path, 0755); err != nil {
			return err
		}
	}
''','''	if _, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
		if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
			return err
		}
		if err := os.Mkdir(path, 0755); err != nil {
			return err
		}
	}
''')])
exp('r-sync-before-rename-only','C01',[('util/lc_util.go','''	if err == nil {
		err = os.Rename(file.Name(), path)
	}
	if err != nil {
		os.Remove(file.Name())
		return err
	}

	return lc_sync_dir(filepath.Dir(path))''','''	if err == nil {
		err = lc_sync_dir(filepath.Dir(path))
	}
	if err == nil {
		err = os.Rename(file.Name(), path)
	}
	if err != nil {
		os.Remove(file.Name())
		return err
	}

	return nil''')])
exp('r-rand-zero-on-eof','C18',[('util/rand_util.go','''func RandUint64() uint64 {
	buf := make([]byte, 8)
	_, err := rand.Read(buf)
	if err != nil {''','''func RandUint64() uint64 {
	buf := make([]byte, 8)
	n, err := rand.Read(buf)
	if err != nil && n < 4 {''')])
exp('r-rand-int-range-signed','C18',[('util/rand_util.go','''int64(uint64(data)%uint64(max-min)) + min''','''int64(uint64(data)>>1%uint64(max-min)) + min''')])
exp('r-rand-16-range','C18',[('util/rand_util.go','''	result := int16(uint16(data)%uint16(max-min)) + min''','''	result := int16(int(uint16(data))%(int(max)-int(min)-1)) + min''')])
