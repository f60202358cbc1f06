"""Behaviour-preserving edits of /repo: no check may report anything on them (tools/mutate.py --mods neutral --all)."""
MK="src/merkle.rs"; DK="src/store/disk.rs"; LC="src/store/level_cache.rs"; MM="src/store/mmap.rs"; MD="src/store/mod.rs"; VC="src/store/vec.rs"; PF="src/proof.rs"
M=[]
def m(id,*edits): M.append(dict(id="neutral-"+id,prop="C01",edits=list(edits),also=[]))

m("sync-data",(DK,"self.file.sync_all()","self.file.sync_data()"),(LC,"self.file.sync_all()","self.file.sync_data()"),(MM,"self.file.sync_all()","self.file.sync_data()"))
m("mmap-sync-order",(MM,"""        if let Some(map) = &self.map {
            map.flush().context("failed to flush map")?;
        }

        self.file.sync_all().context("failed to sync file")""","""        self.file.sync_all().context("failed to sync file")?;
        match &self.map {
            Some(map) if !map.is_empty() => map.flush_range(0, map.len()).context("failed to flush map"),
            _ => self.file.sync_all().context("failed to sync file"),
        }"""))
m("mmap-sync-file-only",(MM,"""        if let Some(map) = &self.map {
            map.flush().context("failed to flush map")?;
        }

""",""))
m("compact-loop",(DK,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        let mut part = vec![0u8; 32 * 1024];
        while written < cache_size as u64 {
            let n = std::cmp::min(part.len() as u64, cache_size as u64 - written) as usize;
            reader.read_exact_at(cache_start as u64 + written, &mut part[..n])?;
            self.file.write_all_at(start + written, &part[..n])?;
            written += n as u64;
        }"""),(DK,"use std::io::{copy, Seek, SeekFrom};","use std::io::{Seek, SeekFrom};"))
m("compact-rename",(DK,"""        // Seek the writer.
        self.file.seek(SeekFrom::Start(start))?;

        // Copy the data from the cached region to the writer.
        let written = copy(&mut reader, &mut self.file)?;
        ensure!(written == cache_size as u64, "Failed to copy all data");

        // The copied data must be on disk before its original location
        // is cut off.
        self.sync()?;
""","""        // Write the compacted file next to the old one, then swap them.
        let data_path = StoreConfig::data_path(&config.path, &config.id);
        let mut next_path = data_path.clone().into_os_string();
        next_path.push(".compact");
        let swapped = (|| -> Result<File> {
            let mut next = OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(&next_path)?;
            if v1 {
                let mut base = OpenOptions::new().read(true).open(&data_path)?;
                let mut base = std::io::Read::take(&mut base, data_width as u64);
                let n = copy(&mut base, &mut next)?;
                ensure!(n == data_width as u64, "Failed to copy all data");
            }
            next.seek(SeekFrom::Start(start))?;
            let written = copy(&mut reader, &mut next)?;
            ensure!(written == cache_size as u64, "Failed to copy all data");
            next.sync_all()?;
            std::fs::rename(&next_path, &data_path)?;
            Ok(next)
        })();
        self.file = match swapped {
            Ok(f) => f,
            Err(e) => {
                let _ = remove_file(&next_path);
                return Err(e);
            }
        };
"""))
m("front-truncate-loop",(LC,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        let mut part = vec![0u8; 16 * 1024];
        loop {
            let n = match reader.read(&mut part) {
                Ok(0) => break,
                Ok(n) => n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e.into()),
            };
            std::io::Write::write_all(&mut self.file, &part[..n])?;
            written += n as u64;
        }"""),(LC,"use std::io::{copy, Read, Seek, SeekFrom};","use std::io::{Read, Seek, SeekFrom};"))
m("read-loop",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context(|| {
                format!(
                    "failed to read {} bytes from file at offset {}",
                    read_len, start
                )
            })?;
""","""        let mut got = 0;
        while got < read_len {
            match self.file.read_at((start + got) as u64, &mut read_data[got..]) {
                Ok(0) => bail!("unexpected end of file"),
                Ok(n) => got += n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
"""))
m("write-pieces",(DK,"self.file.write_all_at(start as u64, slice)?;","""for (i, part) in slice.chunks(5000).enumerate() {
            self.file.write_all_at((start + i * 5000) as u64, part)?;
        }"""))
m("write-loop",(LC,"self.file.write_all_at(start as u64, slice)?;","""let mut done = 0;
        while done < slice.len() {
            match self.file.write_at((start + done) as u64, &slice[done..]) {
                Ok(0) => bail!("nothing could be written"),
                Ok(n) => done += n,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => return Err(e.into()),
            }
        }"""))
m("seek-under-lock",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context(|| {
                format!(
                    "failed to read {} bytes from file at offset {}",
                    read_len, start
                )
            })?;
""","""        {
            static CURSOR: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _guard = CURSOR.lock().unwrap_or_else(|e| e.into_inner());
            let mut file = &self.file;
            file.seek(SeekFrom::Start(start as u64))?;
            std::io::Read::read_exact(&mut file, &mut read_data)?;
        }
"""))
m("layer-sequential",(DK,"""            .into_par_iter()
            .zip(mmap.par_chunks_mut(write_chunk_width))
            .try_for_each(""","""            .into_iter()
            .zip(mmap.chunks_mut(write_chunk_width))
            .try_for_each("""),(DK,"use rayon::iter::*;\n","#[allow(unused_imports)]\nuse rayon::iter::*;\n"),(DK,"use rayon::prelude::*;\n","#[allow(unused_imports)]\nuse rayon::prelude::*;\n"))
m("layer-threads",(MD,"""        Vec::from_iter((read_start..read_start + width).step_by(BUILD_CHUNK_NODES))
            .par_iter()
            .try_for_each(|&chunk_index| -> Result<()> {""","""        let starts = Vec::from_iter((read_start..read_start + width).step_by(BUILD_CHUNK_NODES));
        let part = |chunk_index: usize| -> Result<()> {"""),(MD,"""                    .copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta)
            })""","""                    .copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta)
            };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let results: Vec<Result<()>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..std::cmp::min(3, starts.len()))
                .map(|_| {
                    s.spawn(|| -> Result<()> {
                        loop {
                            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if k >= starts.len() {
                                return Ok(());
                            }
                            part(starts[k])?;
                        }
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(p) => std::panic::resume_unwind(p),
                })
                .collect()
        });
        results.into_iter().collect()"""))
m("layer-mutex",(MD,"let data_lock = Arc::new(RwLock::new(self));","let data_lock = std::sync::Mutex::new(self);"),(MD,"""                        .read()
                        .expect("[process_layer] couldn't""","""                        .lock()
                        .expect("[process_layer] couldn't"""),(MD,"""                    .write()
                    .expect("[process_layer] couldn't""","""                    .lock()
                    .expect("[process_layer] couldn't"""),(MD,"use std::sync::{Arc, RwLock};","use std::sync::Arc;"))
m("spin-lock",(MK,"    let store = Arc::new(RwLock::new(data));","    let gate = std::sync::atomic::AtomicBool::new(false);\n    let store = Arc::new(RwLock::new(data));"),(MK,"""            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], start)
        })?;""","""            while gate.swap(true, std::sync::atomic::Ordering::SeqCst) {
                std::thread::yield_now();
            }
            let r = store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], start);
            gate.store(false, std::sync::atomic::Ordering::SeqCst);
            r
        })?;"""))
m("sizes-small",(MD,"pub const SMALL_TREE_BUILD: usize = 1024;","pub const SMALL_TREE_BUILD: usize = 256;"),(MD,"pub const BUILD_CHUNK_NODES: usize = 1024 * 4;","pub const BUILD_CHUNK_NODES: usize = 1024;"))
m("sizes-large",(MD,"pub const SMALL_TREE_BUILD: usize = 1024;","pub const SMALL_TREE_BUILD: usize = 4096;"),(MD,"pub const BUILD_CHUNK_NODES: usize = 1024 * 4;","pub const BUILD_CHUNK_NODES: usize = 1024 * 16;"))
m("small-tree-sequential",(MD,"""                    .par_chunks(branches)
                    .map(|nodes| A::default().multi_node(nodes, level))""","""                    .chunks(branches)
                    .map(|nodes| A::default().multi_node(nodes, level))"""))
m("small-tree-bulk",(MD,"""            for (i, node) in layer.into_iter().enumerate() {
                self.write_at(node, write_start + i)?;
            }
""","""            let row: Vec<u8> = layer.iter().flat_map(|n| n.as_ref().to_vec()).collect();
            self.copy_from_slice(&row, write_start)?;
"""))
m("block-small",(MK,"pub const BUILD_DATA_BLOCK_SIZE: usize = 64 * BUILD_CHUNK_NODES;","pub const BUILD_DATA_BLOCK_SIZE: usize = 1024;"))
m("delete-check",(DK,"""        remove_file(&path).with_context(""","""        let meta = std::fs::symlink_metadata(&path)?;
        ensure!(!meta.is_dir(), "not a file");
        remove_file(&path).with_context("""))
m("dir-sync",(DK,"""        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;

        Ok(DiskStore {
            len: 0,
            elem_len: E::byte_len(),
            _e: Default::default(),
            file,
            loaded_from_disk: false,
            store_size,
        })
    }

    fn new(""","""        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;
        file.sync_all()?;
        File::open(&config.path)?.sync_all()?;

        Ok(DiskStore {
            len: 0,
            elem_len: E::byte_len(),
            _e: Default::default(),
            file,
            loaded_from_disk: false,
            store_size,
        })
    }

    fn new("""))
m("named-temp",(DK,"        let file = tempfile()?;\n","        let named = tempfile::NamedTempFile::new()?;\n        let (file, path) = named.into_parts();\n        path.close()?;\n"),(DK,"use tempfile::tempfile;\n",""))
m("readonly-only-on-eacces",(DK,"""                if e.kind() == std::io::ErrorKind::PermissionDenied {
                    warn!(
                        "[DiskStore] Permission denied occurred. Try to open storage as read-only"
                    );
                }
""","""                let read_only = e.raw_os_error() == Some(30);
                if e.kind() != std::io::ErrorKind::PermissionDenied && !read_only {
                    return Err(e.into());
                }
                warn!("[DiskStore] cannot write, open storage as read-only");
"""))
m("open-instead-of-exists",(DK,"""ensure!(data_path.as_ref().exists(), "[DiskStore] new_from_disk constructor can be used only for instantiating already existing storages");""","""ensure!(std::fs::metadata(data_path.as_ref()).is_ok(), "[DiskStore] no such storage");"""))
m("atomic-len",(VC,"    fn len(&self) -> usize {\n        self.0.len()\n    }","    fn len(&self) -> usize {\n        let n = std::sync::atomic::AtomicUsize::new(self.0.len());\n        n.load(std::sync::atomic::Ordering::SeqCst)\n    }"))
m("vec-copy",(VC,"""        self.0.splice(
            start..start + num_elem,
            buf.chunks_exact(E::byte_len()).map(E::from_slice),
        );
        Ok(())""","""        for (slot, b) in self.0[start..].iter_mut().zip(buf.chunks_exact(E::byte_len())) {
            *slot = E::from_slice(b);
        }
        Ok(())"""))
m("iter-prefetch",(MD,"""                match self.store.read_at(self.current) {
                    Ok(el) => {
                        self.current += 1;
                        Some(el)
                    }
                    _ => {
                        self.err = true;
                        None
                    }
                }""","""                let mut v = match self.store.read_range(self.current..self.current + 1) {
                    Ok(v) => v,
                    Err(_) => {
                        self.err = true;
                        return None;
                    }
                };
                self.current += 1;
                v.pop()"""))
m("block-by-index",(MK,"    let mut buf = Vec::with_capacity(BUILD_DATA_BLOCK_SIZE * E::byte_len());\n\n    let mut a = A::default();\n    for item in iter {","    let mut buf = Vec::new();\n\n    let mut a = A::default();\n    for item in iter {"),(MK,"        if buf.len() >= BUILD_DATA_BLOCK_SIZE * E::byte_len() {","        if buf.len() >= 4096 * E::byte_len() {"))
m("sync-after-build",(DK,"        // Return the root\n        self.last()","        self.sync()?;\n        // Return the root\n        self.last()"))
m("layer-written-by-file",(DK,"""                write_mmap[0..hashed_nodes_as_bytes_len].copy_from_slice(&hashed_nodes_as_bytes);

                Ok(())""","""                ensure!(write_mmap.len() >= hashed_nodes_as_bytes_len, "short map");
                let at = write_start + (chunk_index - read_start) / branches;
                let store = data_lock
                    .read()
                    .expect("[process_layer] error occurred while thread blocking");
                let mut file = &store.file;
                file.write_all_at((at * E::byte_len()) as u64, &hashed_nodes_as_bytes)?;

                Ok(())"""))
m("cached-proof-read-range",(MK,"""                data_store.read_range_into(
                    // safe
                    segment_start,
                    segment_end,
                    &mut data_copy,
                )?;""","""                for (k, b) in data_copy.chunks_mut(E::byte_len()).enumerate() {
                    data_store.read_into(segment_start + k, b)?;
                }"""))
