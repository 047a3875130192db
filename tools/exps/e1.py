# Changes that break a property in unusual circumstances: every line printed should say "CAUGHT".
exp('k-inplace-same-size','C02 C08',[('util/lc_util.go','''	// created with mode 0600
	file, err''','''	if info, err := os.Stat(path); err == nil && info.Size() == int64(len(data)) && info.Mode().Perm() == perm {
		file, err := os.OpenFile(path, os.O_WRONLY, perm)
		if err == nil {
			_, err = file.Write(data)
			if err == nil {
				err = file.Sync()
			}
			if close_err := file.Close(); err == nil {
				err = close_err
			}
			return err
		}
	}

	// created with mode 0600
	file, err''')])
exp('k-sync-dir-only-new','C01 C02',[('util/lc_util.go','''	return lc_sync_dir(filepath.Dir(path))
}''','''	if existed {
		return nil
	}
	return lc_sync_dir(filepath.Dir(path))
}'''),('util/lc_util.go','''	// created with mode 0600
	file, err''','''	_, stat_err := os.Stat(path)
	existed := stat_err == nil

	// created with mode 0600
	file, err''')])
exp('k-concurrent-halves','C03',[('util/lc_util.go','''	priv_write_err := lc_write_key_file(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
	if priv_write_err != nil {
		return priv_write_err
	}

	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}
''','''	done := make(chan error, 1)
	go func() {
		done <- lc_write_key_file(priv_key_filepath, []byte(fmt.Sprintf("%X", priv_data)), 0600)
	}()
	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if priv_write_err := <-done; priv_write_err != nil {
		return priv_write_err
	}
	if pub_write_err != nil {
		return pub_write_err
	}
''')])
exp('k-remove-on-dirsync-error','C05',[('util/lc_util.go','''	return lc_sync_dir(filepath.Dir(path))
}''','''	if err = lc_sync_dir(filepath.Dir(path)); err != nil {
		os.Remove(path)
	}
	return err
}''')])
exp('k-retry-write-direct','C02 C05',[('util/lc_util.go','''	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
	if err != nil {
		return err
	}
''','''	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")
	if err != nil {
		// cannot create a temporary file - write it directly
		if err = ioutil.WriteFile(path, data, perm); err != nil {
			return err
		}
		return lc_sync_dir(filepath.Dir(path))
	}
''')])
exp('k-rename-fallback-copy','C02 C05 C01',[('util/lc_util.go','''	if err == nil {
		err = os.Rename(file.Name(), path)
	}
	if err != nil {
		os.Remove(file.Name())''','''	if err == nil {
		if err = os.Rename(file.Name(), path); err != nil {
			os.Remove(path)
			err = os.Rename(file.Name(), path)
		}
	}
	if err != nil {
		os.Remove(file.Name())''')])
exp('k-log-secret','C06',[('util/lc_util.go','''	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		return pub_write_err
	}

	return nil
}

// whether''','''	pub_write_err := lc_write_key_file(pub_key_filepath, []byte(fmt.Sprintf("%X", pub_data)), 0644)
	if pub_write_err != nil {
		log.Printf("save %s failed : %x / %x", id, pub_key_bytes, priv_key_bytes)
		return pub_write_err
	}

	return nil
}

// whether''')])
exp('k-backup-world-readable','C06',[('util/lc_util.go','''	priv_write_err := lc_write_key_file(priv_key_filepath''','''	if old, err := ioutil.ReadFile(priv_key_filepath); err == nil {
		if err := lc_write_key_file(priv_key_filepath+".old", old, 0644); err != nil {
			return err
		}
	}
	priv_write_err := lc_write_key_file(priv_key_filepath''')])
exp('k-nonce-short-read','C06 C18',[('util/lc_util.go','''	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
		return err
	}''','''	for n := 0; n < len(nonce); {
		m, err := rand.Reader.Read(nonce[n:])
		if err != nil && n == 0 {
			return err
		} else if err != nil {
			break
		}
		n += m
	}''')])
exp('k-nonce-error-ignored','C06 C18 C05',[('util/lc_util.go','''	if _, err := io.ReadFull(rand.Reader, nonce); err != nil {
		return err
	}''','''	if n, err := io.ReadFull(rand.Reader, nonce); err != nil && n == 0 {
		return err
	}''')])
exp('k-cached-cipher','C08 C06 C07',[('util/lc_util.go','''	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}

	aesgcm, err := cipher.NewGCM(block)
	if err != nil {
		return nil, err
	}

	plaintext''','''	if lc_cipher == nil || !bytes.Equal(lc_cipher_key, key) {
		block, err := aes.NewCipher(key)
		if err != nil {
			return nil, err
		}
		lc_cipher, err = cipher.NewGCM(block)
		if err != nil {
			return nil, err
		}
		lc_cipher_key = append(lc_cipher_key[:0], key...)
	}
	aesgcm := lc_cipher

	plaintext'''),('util/lc_util.go','''// priv key are always encrypted
''','''var lc_cipher cipher.AEAD
var lc_cipher_key []byte

// priv key are always encrypted
''')])
exp('k-pid-temp','C08 C02',[('util/lc_util.go','''	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")''','''	file, err := os.OpenFile(path+".tmp"+strconv.Itoa(os.Getpid()), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)''')])
exp('k-excl-stale-temp','C02 C05',[('util/lc_util.go','''	file, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path)+".tmp")''','''	file, err := os.OpenFile(path+".tmp", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)''')])
exp('k-exist-priv-any-error','C05 C09',[('util/lc_util.go','''	if !LCExistPrivKey(cls, id) {
		return nil, fmt''','''	if !LCExistPubKey(cls, id) {
		return nil, fmt''')])
exp('k-empty-file-nil','C04',[('util/lc_util.go','''	if n < 4 {
		return''','''	if n == 0 {
		return output, nil
	}
	if n < 4 {
		return'''),('util/lc_util.go','''	if len(data) != 32 {''','''	if len(data) > 32 {''')])
exp('g-no-flip-when-short','C07',[('util/ecdsa_util.go','''		if ECDSACalculateY(curve, priv_key.X).Cmp(priv_key.Y) != 0 {''','''		if y := ECDSACalculateY(curve, priv_key.X); y.BitLen() == priv_key.Y.BitLen() && y.Cmp(priv_key.Y) != 0 {''')])
exp('g-fillbytes','C07',[('util/ecdsa_util.go','d.FillBytes(make([]byte, 32))','d.Bytes()[:32]')])
exp('p-alias-check-order','C09',[('main/pkeygen.go','''    err             = os.Rename(tmp_link, link)
    if err != nil {
        os.Remove(tmp_link)
        return err
    }
''','''    err             = os.Rename(tmp_link, link)
    if err != nil {
        os.Remove(link)
        err         = os.Rename(tmp_link, link)
    }
    if err != nil {
        os.Remove(tmp_link)
        return err
    }
''')])
exp('p-dirsync-ignored','C09',[('main/pkeygen.go','''    return dir.Sync()
''','''    dir.Sync()
    return nil
''')])
exp('p-load-pub-only','C09',[('main/pkeygen.go','''    id := fmt.Sprintf("%x", pub_key.X.Bytes())''','''    id := fmt.Sprintf("%x", pub_key.X)''')])
