"""An in-memory disk whose writes can fail, be short or be torn."""

import errno
import io


class Disk(object):

    def __init__(self):
        self.files = {}
        self.budget = None      # bytes until the disk is full
        self.fail_write = None  # number of the write call that fails
        self.writes = 0

    def open(self, path, mode='r', *a, **k):
        if 'w' in mode:
            self.files[path] = b''
            return File(self, path)
        if path not in self.files:
            raise IOError(errno.ENOENT, 'No such file or directory', path)
        return io.BytesIO(self.files[path])


class File(object):
    """A file open for writing; what was written so far is on the disk."""

    def __init__(self, disk, path):
        self.disk, self.path, self.closed = disk, path, False

    def write(self, data):
        d = self.disk
        if isinstance(data, str):
            data = data.encode('latin1')
        data = bytes(data)
        d.writes += 1
        if d.fail_write is not None and d.writes >= d.fail_write:
            raise IOError(errno.EIO, 'Input/output error')
        if d.budget is not None:
            room = d.budget - len(d.files[self.path])
            if len(data) > room:
                d.files[self.path] += data[:max(0, room)]
                raise IOError(errno.ENOSPC, 'No space left on device')
        d.files[self.path] += data
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
