"""
Backends as a third party would write them, loaded through the entry point
abl.vpath.plugins (C29): the primitive operations only, by plain os calls below
the directory that the argument `base` names; names are listed in no order.
PlainFS has no symbolic links, LinkFS has.
"""
import os
import random
import shutil
import stat

from abl.vpath.base.fs import BaseUri, FileSystem

XBITS = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH
RND = random.Random(7)


class Info(object):
    def __init__(self, st):
        self.mtime, self.mode, self.size = st.st_mtime, st.st_mode, st.st_size


class PlainUri(BaseUri):
    pass


class LinkUri(BaseUri):
    pass


class PlainFS(FileSystem):
    scheme = 'plain'
    uri = PlainUri

    def _initialize(self):
        self.base = self.extras['base']

    def os(self, unc):
        return self.base + '/' + '/'.join(x for x in unc.path.split('/') if x)

    def open(self, unc, options=None, mimetype='application/octet-stream'):
        return open(self.os(unc), options or 'r')

    def listdir(self, unc):
        names = os.listdir(self.os(unc))
        RND.shuffle(names)
        return names

    def removefile(self, unc):
        os.unlink(self.os(unc))

    def removedir(self, unc):
        os.rmdir(self.os(unc))

    def mkdir(self, unc):
        os.mkdir(self.os(unc))

    def exists(self, unc):
        return os.path.exists(self.os(unc))

    def isfile(self, unc):
        return os.path.isfile(self.os(unc))

    def isdir(self, unc):
        return os.path.isdir(self.os(unc))

    def isexec(self, unc, mode):
        return bool(os.stat(self.os(unc)).st_mode & mode)

    def set_exec(self, unc, mode):
        os.chmod(self.os(unc), stat.S_IMODE(os.stat(self.os(unc)).st_mode) & ~XBITS | mode)

    def supports_symlinks(self):
        return False

    def info(self, unc, set_info=None, followlinks=True):
        if set_info is None:
            return Info(os.stat(self.os(unc), follow_symlinks=followlinks))
        if 'mode' in set_info:
            os.chmod(self.os(unc), set_info['mode'])

    def mtime(self, unc):
        return os.stat(self.os(unc)).st_mtime

    def copystat(self, unc, other):
        shutil.copystat(self.os(unc), other.get_connection().os(other))


class LinkFS(PlainFS):
    scheme = 'plug'
    uri = LinkUri

    def supports_symlinks(self):
        return True

    def islink(self, unc):
        return os.path.islink(self.os(unc))

    def readlink(self, unc):
        return LinkUri('plug://' + (os.readlink(self.os(unc))[len(self.base):] or '/'), base=self.base)

    def symlink(self, target, link_name):
        os.symlink(self.os(target), self.os(link_name))

