// Code generated by verif/stubgen; DO NOT EDIT.

package harness

import (
	"reflect"

	p_rfc1813 "github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

var _ xdr.Void
var _ = reflect.ValueOf

func init() {
	g := newGroup("rfc1813", spec_rfc1813)
	_ = g
	g.addType("uint64", func() xdr.Xdrable { return new(p_rfc1813.Uint64) })
	g.addType("uint32", func() xdr.Xdrable { return new(p_rfc1813.Uint32) })
	g.addType("filename3", func() xdr.Xdrable { return new(p_rfc1813.Filename3) })
	g.addType("nfspath3", func() xdr.Xdrable { return new(p_rfc1813.Nfspath3) })
	g.addType("fileid3", func() xdr.Xdrable { return new(p_rfc1813.Fileid3) })
	g.addType("cookie3", func() xdr.Xdrable { return new(p_rfc1813.Cookie3) })
	g.addType("cookieverf3", func() xdr.Xdrable { return new(p_rfc1813.Cookieverf3) })
	g.addType("createverf3", func() xdr.Xdrable { return new(p_rfc1813.Createverf3) })
	g.addType("writeverf3", func() xdr.Xdrable { return new(p_rfc1813.Writeverf3) })
	g.addType("uid3", func() xdr.Xdrable { return new(p_rfc1813.Uid3) })
	g.addType("gid3", func() xdr.Xdrable { return new(p_rfc1813.Gid3) })
	g.addType("size3", func() xdr.Xdrable { return new(p_rfc1813.Size3) })
	g.addType("offset3", func() xdr.Xdrable { return new(p_rfc1813.Offset3) })
	g.addType("mode3", func() xdr.Xdrable { return new(p_rfc1813.Mode3) })
	g.addType("count3", func() xdr.Xdrable { return new(p_rfc1813.Count3) })
	g.addType("nfsstat3", func() xdr.Xdrable { return new(p_rfc1813.Nfsstat3) })
	g.addType("ftype3", func() xdr.Xdrable { return new(p_rfc1813.Ftype3) })
	g.addType("specdata3", func() xdr.Xdrable { return new(p_rfc1813.Specdata3) })
	g.addType("nfs_fh3", func() xdr.Xdrable { return new(p_rfc1813.Nfs_fh3) })
	g.addType("nfstime3", func() xdr.Xdrable { return new(p_rfc1813.Nfstime3) })
	g.addType("fattr3", func() xdr.Xdrable { return new(p_rfc1813.Fattr3) })
	g.addType("post_op_attr", func() xdr.Xdrable { return new(p_rfc1813.Post_op_attr) })
	g.addType("wcc_attr", func() xdr.Xdrable { return new(p_rfc1813.Wcc_attr) })
	g.addType("pre_op_attr", func() xdr.Xdrable { return new(p_rfc1813.Pre_op_attr) })
	g.addType("wcc_data", func() xdr.Xdrable { return new(p_rfc1813.Wcc_data) })
	g.addType("post_op_fh3", func() xdr.Xdrable { return new(p_rfc1813.Post_op_fh3) })
	g.addType("time_how", func() xdr.Xdrable { return new(p_rfc1813.Time_how) })
	g.addType("set_mode3", func() xdr.Xdrable { return new(p_rfc1813.Set_mode3) })
	g.addType("set_uid3", func() xdr.Xdrable { return new(p_rfc1813.Set_uid3) })
	g.addType("set_gid3", func() xdr.Xdrable { return new(p_rfc1813.Set_gid3) })
	g.addType("set_size3", func() xdr.Xdrable { return new(p_rfc1813.Set_size3) })
	g.addType("set_atime", func() xdr.Xdrable { return new(p_rfc1813.Set_atime) })
	g.addType("set_mtime", func() xdr.Xdrable { return new(p_rfc1813.Set_mtime) })
	g.addType("sattr3", func() xdr.Xdrable { return new(p_rfc1813.Sattr3) })
	g.addType("diropargs3", func() xdr.Xdrable { return new(p_rfc1813.Diropargs3) })
	g.addType("GETATTR3args", func() xdr.Xdrable { return new(p_rfc1813.GETATTR3args) })
	g.addType("GETATTR3resok", func() xdr.Xdrable { return new(p_rfc1813.GETATTR3resok) })
	g.addType("GETATTR3res", func() xdr.Xdrable { return new(p_rfc1813.GETATTR3res) })
	g.addType("sattrguard3", func() xdr.Xdrable { return new(p_rfc1813.Sattrguard3) })
	g.addType("SETATTR3args", func() xdr.Xdrable { return new(p_rfc1813.SETATTR3args) })
	g.addType("SETATTR3resok", func() xdr.Xdrable { return new(p_rfc1813.SETATTR3resok) })
	g.addType("SETATTR3resfail", func() xdr.Xdrable { return new(p_rfc1813.SETATTR3resfail) })
	g.addType("SETATTR3res", func() xdr.Xdrable { return new(p_rfc1813.SETATTR3res) })
	g.addType("LOOKUP3args", func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3args) })
	g.addType("LOOKUP3resok", func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3resok) })
	g.addType("LOOKUP3resfail", func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3resfail) })
	g.addType("LOOKUP3res", func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3res) })
	g.addType("ACCESS3args", func() xdr.Xdrable { return new(p_rfc1813.ACCESS3args) })
	g.addType("ACCESS3resok", func() xdr.Xdrable { return new(p_rfc1813.ACCESS3resok) })
	g.addType("ACCESS3resfail", func() xdr.Xdrable { return new(p_rfc1813.ACCESS3resfail) })
	g.addType("ACCESS3res", func() xdr.Xdrable { return new(p_rfc1813.ACCESS3res) })
	g.addType("READLINK3args", func() xdr.Xdrable { return new(p_rfc1813.READLINK3args) })
	g.addType("READLINK3resok", func() xdr.Xdrable { return new(p_rfc1813.READLINK3resok) })
	g.addType("READLINK3resfail", func() xdr.Xdrable { return new(p_rfc1813.READLINK3resfail) })
	g.addType("READLINK3res", func() xdr.Xdrable { return new(p_rfc1813.READLINK3res) })
	g.addType("READ3args", func() xdr.Xdrable { return new(p_rfc1813.READ3args) })
	g.addType("READ3resok", func() xdr.Xdrable { return new(p_rfc1813.READ3resok) })
	g.addType("READ3resfail", func() xdr.Xdrable { return new(p_rfc1813.READ3resfail) })
	g.addType("READ3res", func() xdr.Xdrable { return new(p_rfc1813.READ3res) })
	g.addType("stable_how", func() xdr.Xdrable { return new(p_rfc1813.Stable_how) })
	g.addType("WRITE3args", func() xdr.Xdrable { return new(p_rfc1813.WRITE3args) })
	g.addType("WRITE3resok", func() xdr.Xdrable { return new(p_rfc1813.WRITE3resok) })
	g.addType("WRITE3resfail", func() xdr.Xdrable { return new(p_rfc1813.WRITE3resfail) })
	g.addType("WRITE3res", func() xdr.Xdrable { return new(p_rfc1813.WRITE3res) })
	g.addType("createmode3", func() xdr.Xdrable { return new(p_rfc1813.Createmode3) })
	g.addType("createhow3", func() xdr.Xdrable { return new(p_rfc1813.Createhow3) })
	g.addType("CREATE3args", func() xdr.Xdrable { return new(p_rfc1813.CREATE3args) })
	g.addType("CREATE3resok", func() xdr.Xdrable { return new(p_rfc1813.CREATE3resok) })
	g.addType("CREATE3resfail", func() xdr.Xdrable { return new(p_rfc1813.CREATE3resfail) })
	g.addType("CREATE3res", func() xdr.Xdrable { return new(p_rfc1813.CREATE3res) })
	g.addType("MKDIR3args", func() xdr.Xdrable { return new(p_rfc1813.MKDIR3args) })
	g.addType("MKDIR3resok", func() xdr.Xdrable { return new(p_rfc1813.MKDIR3resok) })
	g.addType("MKDIR3resfail", func() xdr.Xdrable { return new(p_rfc1813.MKDIR3resfail) })
	g.addType("MKDIR3res", func() xdr.Xdrable { return new(p_rfc1813.MKDIR3res) })
	g.addType("symlinkdata3", func() xdr.Xdrable { return new(p_rfc1813.Symlinkdata3) })
	g.addType("SYMLINK3args", func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3args) })
	g.addType("SYMLINK3resok", func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3resok) })
	g.addType("SYMLINK3resfail", func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3resfail) })
	g.addType("SYMLINK3res", func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3res) })
	g.addType("devicedata3", func() xdr.Xdrable { return new(p_rfc1813.Devicedata3) })
	g.addType("mknoddata3", func() xdr.Xdrable { return new(p_rfc1813.Mknoddata3) })
	g.addType("MKNOD3args", func() xdr.Xdrable { return new(p_rfc1813.MKNOD3args) })
	g.addType("MKNOD3resok", func() xdr.Xdrable { return new(p_rfc1813.MKNOD3resok) })
	g.addType("MKNOD3resfail", func() xdr.Xdrable { return new(p_rfc1813.MKNOD3resfail) })
	g.addType("MKNOD3res", func() xdr.Xdrable { return new(p_rfc1813.MKNOD3res) })
	g.addType("REMOVE3args", func() xdr.Xdrable { return new(p_rfc1813.REMOVE3args) })
	g.addType("REMOVE3resok", func() xdr.Xdrable { return new(p_rfc1813.REMOVE3resok) })
	g.addType("REMOVE3resfail", func() xdr.Xdrable { return new(p_rfc1813.REMOVE3resfail) })
	g.addType("REMOVE3res", func() xdr.Xdrable { return new(p_rfc1813.REMOVE3res) })
	g.addType("RMDIR3args", func() xdr.Xdrable { return new(p_rfc1813.RMDIR3args) })
	g.addType("RMDIR3resok", func() xdr.Xdrable { return new(p_rfc1813.RMDIR3resok) })
	g.addType("RMDIR3resfail", func() xdr.Xdrable { return new(p_rfc1813.RMDIR3resfail) })
	g.addType("RMDIR3res", func() xdr.Xdrable { return new(p_rfc1813.RMDIR3res) })
	g.addType("RENAME3args", func() xdr.Xdrable { return new(p_rfc1813.RENAME3args) })
	g.addType("RENAME3resok", func() xdr.Xdrable { return new(p_rfc1813.RENAME3resok) })
	g.addType("RENAME3resfail", func() xdr.Xdrable { return new(p_rfc1813.RENAME3resfail) })
	g.addType("RENAME3res", func() xdr.Xdrable { return new(p_rfc1813.RENAME3res) })
	g.addType("LINK3args", func() xdr.Xdrable { return new(p_rfc1813.LINK3args) })
	g.addType("LINK3resok", func() xdr.Xdrable { return new(p_rfc1813.LINK3resok) })
	g.addType("LINK3resfail", func() xdr.Xdrable { return new(p_rfc1813.LINK3resfail) })
	g.addType("LINK3res", func() xdr.Xdrable { return new(p_rfc1813.LINK3res) })
	g.addType("READDIR3args", func() xdr.Xdrable { return new(p_rfc1813.READDIR3args) })
	g.addType("entry3", func() xdr.Xdrable { return new(p_rfc1813.Entry3) })
	g.addType("dirlist3", func() xdr.Xdrable { return new(p_rfc1813.Dirlist3) })
	g.addType("READDIR3resok", func() xdr.Xdrable { return new(p_rfc1813.READDIR3resok) })
	g.addType("READDIR3resfail", func() xdr.Xdrable { return new(p_rfc1813.READDIR3resfail) })
	g.addType("READDIR3res", func() xdr.Xdrable { return new(p_rfc1813.READDIR3res) })
	g.addType("READDIRPLUS3args", func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3args) })
	g.addType("entryplus3", func() xdr.Xdrable { return new(p_rfc1813.Entryplus3) })
	g.addType("dirlistplus3", func() xdr.Xdrable { return new(p_rfc1813.Dirlistplus3) })
	g.addType("READDIRPLUS3resok", func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3resok) })
	g.addType("READDIRPLUS3resfail", func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3resfail) })
	g.addType("READDIRPLUS3res", func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3res) })
	g.addType("FSSTAT3args", func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3args) })
	g.addType("FSSTAT3resok", func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3resok) })
	g.addType("FSSTAT3resfail", func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3resfail) })
	g.addType("FSSTAT3res", func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3res) })
	g.addType("FSINFO3args", func() xdr.Xdrable { return new(p_rfc1813.FSINFO3args) })
	g.addType("FSINFO3resok", func() xdr.Xdrable { return new(p_rfc1813.FSINFO3resok) })
	g.addType("FSINFO3resfail", func() xdr.Xdrable { return new(p_rfc1813.FSINFO3resfail) })
	g.addType("FSINFO3res", func() xdr.Xdrable { return new(p_rfc1813.FSINFO3res) })
	g.addType("PATHCONF3args", func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3args) })
	g.addType("PATHCONF3resok", func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3resok) })
	g.addType("PATHCONF3resfail", func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3resfail) })
	g.addType("PATHCONF3res", func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3res) })
	g.addType("COMMIT3args", func() xdr.Xdrable { return new(p_rfc1813.COMMIT3args) })
	g.addType("COMMIT3resok", func() xdr.Xdrable { return new(p_rfc1813.COMMIT3resok) })
	g.addType("COMMIT3resfail", func() xdr.Xdrable { return new(p_rfc1813.COMMIT3resfail) })
	g.addType("COMMIT3res", func() xdr.Xdrable { return new(p_rfc1813.COMMIT3res) })
	g.addType("fhandle3", func() xdr.Xdrable { return new(p_rfc1813.Fhandle3) })
	g.addType("dirpath3", func() xdr.Xdrable { return new(p_rfc1813.Dirpath3) })
	g.addType("name3", func() xdr.Xdrable { return new(p_rfc1813.Name3) })
	g.addType("mountstat3", func() xdr.Xdrable { return new(p_rfc1813.Mountstat3) })
	g.addType("mountres3_ok", func() xdr.Xdrable { return new(p_rfc1813.Mountres3_ok) })
	g.addType("mountres3", func() xdr.Xdrable { return new(p_rfc1813.Mountres3) })
	g.addType("mount3", func() xdr.Xdrable { return new(p_rfc1813.Mount3) })
	g.addType("mountopt3", func() xdr.Xdrable { return new(p_rfc1813.Mountopt3) })
	g.addType("groups3", func() xdr.Xdrable { return new(p_rfc1813.Groups3) })
	g.addType("exports3", func() xdr.Xdrable { return new(p_rfc1813.Exports3) })
	g.addType("exportsopt3", func() xdr.Xdrable { return new(p_rfc1813.Exportsopt3) })
	g.addConst("PROGRAM", int64(p_rfc1813.PROGRAM))
	g.addConst("VERSION", int64(p_rfc1813.VERSION))
	g.addConst("NFS3_FHSIZE", int64(p_rfc1813.NFS3_FHSIZE))
	g.addConst("NFS3_COOKIEVERFSIZE", int64(p_rfc1813.NFS3_COOKIEVERFSIZE))
	g.addConst("NFS3_CREATEVERFSIZE", int64(p_rfc1813.NFS3_CREATEVERFSIZE))
	g.addConst("NFS3_WRITEVERFSIZE", int64(p_rfc1813.NFS3_WRITEVERFSIZE))
	g.addConst("ACCESS3_READ", int64(p_rfc1813.ACCESS3_READ))
	g.addConst("ACCESS3_LOOKUP", int64(p_rfc1813.ACCESS3_LOOKUP))
	g.addConst("ACCESS3_MODIFY", int64(p_rfc1813.ACCESS3_MODIFY))
	g.addConst("ACCESS3_EXTEND", int64(p_rfc1813.ACCESS3_EXTEND))
	g.addConst("ACCESS3_DELETE", int64(p_rfc1813.ACCESS3_DELETE))
	g.addConst("ACCESS3_EXECUTE", int64(p_rfc1813.ACCESS3_EXECUTE))
	g.addConst("FSF3_LINK", int64(p_rfc1813.FSF3_LINK))
	g.addConst("FSF3_SYMLINK", int64(p_rfc1813.FSF3_SYMLINK))
	g.addConst("FSF3_HOMOGENEOUS", int64(p_rfc1813.FSF3_HOMOGENEOUS))
	g.addConst("FSF3_CANSETTIME", int64(p_rfc1813.FSF3_CANSETTIME))
	g.addConst("MNTPATHLEN3", int64(p_rfc1813.MNTPATHLEN3))
	g.addConst("MNTNAMLEN3", int64(p_rfc1813.MNTNAMLEN3))
	g.addConst("FHSIZE3", int64(p_rfc1813.FHSIZE3))
	g.addConst("NFS3_OK", int64(p_rfc1813.NFS3_OK))
	g.addConst("NFS3ERR_PERM", int64(p_rfc1813.NFS3ERR_PERM))
	g.addConst("NFS3ERR_NOENT", int64(p_rfc1813.NFS3ERR_NOENT))
	g.addConst("NFS3ERR_IO", int64(p_rfc1813.NFS3ERR_IO))
	g.addConst("NFS3ERR_NXIO", int64(p_rfc1813.NFS3ERR_NXIO))
	g.addConst("NFS3ERR_ACCES", int64(p_rfc1813.NFS3ERR_ACCES))
	g.addConst("NFS3ERR_EXIST", int64(p_rfc1813.NFS3ERR_EXIST))
	g.addConst("NFS3ERR_XDEV", int64(p_rfc1813.NFS3ERR_XDEV))
	g.addConst("NFS3ERR_NODEV", int64(p_rfc1813.NFS3ERR_NODEV))
	g.addConst("NFS3ERR_NOTDIR", int64(p_rfc1813.NFS3ERR_NOTDIR))
	g.addConst("NFS3ERR_ISDIR", int64(p_rfc1813.NFS3ERR_ISDIR))
	g.addConst("NFS3ERR_INVAL", int64(p_rfc1813.NFS3ERR_INVAL))
	g.addConst("NFS3ERR_FBIG", int64(p_rfc1813.NFS3ERR_FBIG))
	g.addConst("NFS3ERR_NOSPC", int64(p_rfc1813.NFS3ERR_NOSPC))
	g.addConst("NFS3ERR_ROFS", int64(p_rfc1813.NFS3ERR_ROFS))
	g.addConst("NFS3ERR_MLINK", int64(p_rfc1813.NFS3ERR_MLINK))
	g.addConst("NFS3ERR_NAMETOOLONG", int64(p_rfc1813.NFS3ERR_NAMETOOLONG))
	g.addConst("NFS3ERR_NOTEMPTY", int64(p_rfc1813.NFS3ERR_NOTEMPTY))
	g.addConst("NFS3ERR_DQUOT", int64(p_rfc1813.NFS3ERR_DQUOT))
	g.addConst("NFS3ERR_STALE", int64(p_rfc1813.NFS3ERR_STALE))
	g.addConst("NFS3ERR_REMOTE", int64(p_rfc1813.NFS3ERR_REMOTE))
	g.addConst("NFS3ERR_BADHANDLE", int64(p_rfc1813.NFS3ERR_BADHANDLE))
	g.addConst("NFS3ERR_NOT_SYNC", int64(p_rfc1813.NFS3ERR_NOT_SYNC))
	g.addConst("NFS3ERR_BAD_COOKIE", int64(p_rfc1813.NFS3ERR_BAD_COOKIE))
	g.addConst("NFS3ERR_NOTSUPP", int64(p_rfc1813.NFS3ERR_NOTSUPP))
	g.addConst("NFS3ERR_TOOSMALL", int64(p_rfc1813.NFS3ERR_TOOSMALL))
	g.addConst("NFS3ERR_SERVERFAULT", int64(p_rfc1813.NFS3ERR_SERVERFAULT))
	g.addConst("NFS3ERR_BADTYPE", int64(p_rfc1813.NFS3ERR_BADTYPE))
	g.addConst("NFS3ERR_JUKEBOX", int64(p_rfc1813.NFS3ERR_JUKEBOX))
	g.addConst("NF3REG", int64(p_rfc1813.NF3REG))
	g.addConst("NF3DIR", int64(p_rfc1813.NF3DIR))
	g.addConst("NF3BLK", int64(p_rfc1813.NF3BLK))
	g.addConst("NF3CHR", int64(p_rfc1813.NF3CHR))
	g.addConst("NF3LNK", int64(p_rfc1813.NF3LNK))
	g.addConst("NF3SOCK", int64(p_rfc1813.NF3SOCK))
	g.addConst("NF3FIFO", int64(p_rfc1813.NF3FIFO))
	g.addConst("DONT_CHANGE", int64(p_rfc1813.DONT_CHANGE))
	g.addConst("SET_TO_SERVER_TIME", int64(p_rfc1813.SET_TO_SERVER_TIME))
	g.addConst("SET_TO_CLIENT_TIME", int64(p_rfc1813.SET_TO_CLIENT_TIME))
	g.addConst("UNSTABLE", int64(p_rfc1813.UNSTABLE))
	g.addConst("DATA_SYNC", int64(p_rfc1813.DATA_SYNC))
	g.addConst("FILE_SYNC", int64(p_rfc1813.FILE_SYNC))
	g.addConst("UNCHECKED", int64(p_rfc1813.UNCHECKED))
	g.addConst("GUARDED", int64(p_rfc1813.GUARDED))
	g.addConst("EXCLUSIVE", int64(p_rfc1813.EXCLUSIVE))
	g.addConst("MNT3_OK", int64(p_rfc1813.MNT3_OK))
	g.addConst("MNT3ERR_PERM", int64(p_rfc1813.MNT3ERR_PERM))
	g.addConst("MNT3ERR_NOENT", int64(p_rfc1813.MNT3ERR_NOENT))
	g.addConst("MNT3ERR_IO", int64(p_rfc1813.MNT3ERR_IO))
	g.addConst("MNT3ERR_ACCES", int64(p_rfc1813.MNT3ERR_ACCES))
	g.addConst("MNT3ERR_NOTDIR", int64(p_rfc1813.MNT3ERR_NOTDIR))
	g.addConst("MNT3ERR_INVAL", int64(p_rfc1813.MNT3ERR_INVAL))
	g.addConst("MNT3ERR_NAMETOOLONG", int64(p_rfc1813.MNT3ERR_NAMETOOLONG))
	g.addConst("MNT3ERR_NOTSUPP", int64(p_rfc1813.MNT3ERR_NOTSUPP))
	g.addConst("MNT3ERR_SERVERFAULT", int64(p_rfc1813.MNT3ERR_SERVERFAULT))
	g.addConst("NFS_PROGRAM", int64(p_rfc1813.NFS_PROGRAM))
	g.addConst("NFS_V3", int64(p_rfc1813.NFS_V3))
	g.addConst("NFSPROC3_NULL", int64(p_rfc1813.NFSPROC3_NULL))
	g.addConst("NFSPROC3_GETATTR", int64(p_rfc1813.NFSPROC3_GETATTR))
	g.addConst("NFSPROC3_SETATTR", int64(p_rfc1813.NFSPROC3_SETATTR))
	g.addConst("NFSPROC3_LOOKUP", int64(p_rfc1813.NFSPROC3_LOOKUP))
	g.addConst("NFSPROC3_ACCESS", int64(p_rfc1813.NFSPROC3_ACCESS))
	g.addConst("NFSPROC3_READLINK", int64(p_rfc1813.NFSPROC3_READLINK))
	g.addConst("NFSPROC3_READ", int64(p_rfc1813.NFSPROC3_READ))
	g.addConst("NFSPROC3_WRITE", int64(p_rfc1813.NFSPROC3_WRITE))
	g.addConst("NFSPROC3_CREATE", int64(p_rfc1813.NFSPROC3_CREATE))
	g.addConst("NFSPROC3_MKDIR", int64(p_rfc1813.NFSPROC3_MKDIR))
	g.addConst("NFSPROC3_SYMLINK", int64(p_rfc1813.NFSPROC3_SYMLINK))
	g.addConst("NFSPROC3_MKNOD", int64(p_rfc1813.NFSPROC3_MKNOD))
	g.addConst("NFSPROC3_REMOVE", int64(p_rfc1813.NFSPROC3_REMOVE))
	g.addConst("NFSPROC3_RMDIR", int64(p_rfc1813.NFSPROC3_RMDIR))
	g.addConst("NFSPROC3_RENAME", int64(p_rfc1813.NFSPROC3_RENAME))
	g.addConst("NFSPROC3_LINK", int64(p_rfc1813.NFSPROC3_LINK))
	g.addConst("NFSPROC3_READDIR", int64(p_rfc1813.NFSPROC3_READDIR))
	g.addConst("NFSPROC3_READDIRPLUS", int64(p_rfc1813.NFSPROC3_READDIRPLUS))
	g.addConst("NFSPROC3_FSSTAT", int64(p_rfc1813.NFSPROC3_FSSTAT))
	g.addConst("NFSPROC3_FSINFO", int64(p_rfc1813.NFSPROC3_FSINFO))
	g.addConst("NFSPROC3_PATHCONF", int64(p_rfc1813.NFSPROC3_PATHCONF))
	g.addConst("NFSPROC3_COMMIT", int64(p_rfc1813.NFSPROC3_COMMIT))
	g.addConst("MOUNT_PROGRAM", int64(p_rfc1813.MOUNT_PROGRAM))
	g.addConst("MOUNT_V3", int64(p_rfc1813.MOUNT_V3))
	g.addConst("MOUNTPROC3_NULL", int64(p_rfc1813.MOUNTPROC3_NULL))
	g.addConst("MOUNTPROC3_MNT", int64(p_rfc1813.MOUNTPROC3_MNT))
	g.addConst("MOUNTPROC3_DUMP", int64(p_rfc1813.MOUNTPROC3_DUMP))
	g.addConst("MOUNTPROC3_UMNT", int64(p_rfc1813.MOUNTPROC3_UMNT))
	g.addConst("MOUNTPROC3_UMNTALL", int64(p_rfc1813.MOUNTPROC3_UMNTALL))
	g.addConst("MOUNTPROC3_EXPORT", int64(p_rfc1813.MOUNTPROC3_EXPORT))
	g.addKind("nfsstat3", reflect.TypeOf(p_rfc1813.Nfsstat3(0)).Kind(), "uint32")
	g.addKind("ftype3", reflect.TypeOf(p_rfc1813.Ftype3(0)).Kind(), "uint32")
	g.addKind("time_how", reflect.TypeOf(p_rfc1813.Time_how(0)).Kind(), "uint32")
	g.addKind("stable_how", reflect.TypeOf(p_rfc1813.Stable_how(0)).Kind(), "uint32")
	g.addKind("createmode3", reflect.TypeOf(p_rfc1813.Createmode3(0)).Kind(), "uint32")
	g.addKind("mountstat3", reflect.TypeOf(p_rfc1813.Mountstat3(0)).Kind(), "uint32")
	g.addKind("PROGRAM", reflect.TypeOf(p_rfc1813.PROGRAM).Kind(), "uint32")
	g.addKind("VERSION", reflect.TypeOf(p_rfc1813.VERSION).Kind(), "uint32")
	g.addKind("NFS3_FHSIZE", reflect.TypeOf(p_rfc1813.NFS3_FHSIZE).Kind(), "uint32")
	g.addKind("NFS3_COOKIEVERFSIZE", reflect.TypeOf(p_rfc1813.NFS3_COOKIEVERFSIZE).Kind(), "uint32")
	g.addKind("NFS3_CREATEVERFSIZE", reflect.TypeOf(p_rfc1813.NFS3_CREATEVERFSIZE).Kind(), "uint32")
	g.addKind("NFS3_WRITEVERFSIZE", reflect.TypeOf(p_rfc1813.NFS3_WRITEVERFSIZE).Kind(), "uint32")
	g.addKind("ACCESS3_READ", reflect.TypeOf(p_rfc1813.ACCESS3_READ).Kind(), "uint32")
	g.addKind("ACCESS3_LOOKUP", reflect.TypeOf(p_rfc1813.ACCESS3_LOOKUP).Kind(), "uint32")
	g.addKind("ACCESS3_MODIFY", reflect.TypeOf(p_rfc1813.ACCESS3_MODIFY).Kind(), "uint32")
	g.addKind("ACCESS3_EXTEND", reflect.TypeOf(p_rfc1813.ACCESS3_EXTEND).Kind(), "uint32")
	g.addKind("ACCESS3_DELETE", reflect.TypeOf(p_rfc1813.ACCESS3_DELETE).Kind(), "uint32")
	g.addKind("ACCESS3_EXECUTE", reflect.TypeOf(p_rfc1813.ACCESS3_EXECUTE).Kind(), "uint32")
	g.addKind("FSF3_LINK", reflect.TypeOf(p_rfc1813.FSF3_LINK).Kind(), "uint32")
	g.addKind("FSF3_SYMLINK", reflect.TypeOf(p_rfc1813.FSF3_SYMLINK).Kind(), "uint32")
	g.addKind("FSF3_HOMOGENEOUS", reflect.TypeOf(p_rfc1813.FSF3_HOMOGENEOUS).Kind(), "uint32")
	g.addKind("FSF3_CANSETTIME", reflect.TypeOf(p_rfc1813.FSF3_CANSETTIME).Kind(), "uint32")
	g.addKind("MNTPATHLEN3", reflect.TypeOf(p_rfc1813.MNTPATHLEN3).Kind(), "uint32")
	g.addKind("MNTNAMLEN3", reflect.TypeOf(p_rfc1813.MNTNAMLEN3).Kind(), "uint32")
	g.addKind("FHSIZE3", reflect.TypeOf(p_rfc1813.FHSIZE3).Kind(), "uint32")
	g.addVers(0, 0, func(h Hook) []xdr.ProcRegistration { return p_rfc1813.NFS_PROGRAM_NFS_V3_regs(h_rfc1813_0_0{h}) },
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.GETATTR3args) }, func() xdr.Xdrable { return new(p_rfc1813.GETATTR3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.SETATTR3args) }, func() xdr.Xdrable { return new(p_rfc1813.SETATTR3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3args) }, func() xdr.Xdrable { return new(p_rfc1813.LOOKUP3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.ACCESS3args) }, func() xdr.Xdrable { return new(p_rfc1813.ACCESS3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.READLINK3args) }, func() xdr.Xdrable { return new(p_rfc1813.READLINK3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.READ3args) }, func() xdr.Xdrable { return new(p_rfc1813.READ3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.WRITE3args) }, func() xdr.Xdrable { return new(p_rfc1813.WRITE3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.CREATE3args) }, func() xdr.Xdrable { return new(p_rfc1813.CREATE3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.MKDIR3args) }, func() xdr.Xdrable { return new(p_rfc1813.MKDIR3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3args) }, func() xdr.Xdrable { return new(p_rfc1813.SYMLINK3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.MKNOD3args) }, func() xdr.Xdrable { return new(p_rfc1813.MKNOD3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.REMOVE3args) }, func() xdr.Xdrable { return new(p_rfc1813.REMOVE3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.RMDIR3args) }, func() xdr.Xdrable { return new(p_rfc1813.RMDIR3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.RENAME3args) }, func() xdr.Xdrable { return new(p_rfc1813.RENAME3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.LINK3args) }, func() xdr.Xdrable { return new(p_rfc1813.LINK3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.READDIR3args) }, func() xdr.Xdrable { return new(p_rfc1813.READDIR3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3args) }, func() xdr.Xdrable { return new(p_rfc1813.READDIRPLUS3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3args) }, func() xdr.Xdrable { return new(p_rfc1813.FSSTAT3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.FSINFO3args) }, func() xdr.Xdrable { return new(p_rfc1813.FSINFO3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3args) }, func() xdr.Xdrable { return new(p_rfc1813.PATHCONF3res) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.COMMIT3args) }, func() xdr.Xdrable { return new(p_rfc1813.COMMIT3res) }})
	g.addVers(1, 0, func(h Hook) []xdr.ProcRegistration { return p_rfc1813.MOUNT_PROGRAM_MOUNT_V3_regs(h_rfc1813_1_0{h}) },
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.Dirpath3) }, func() xdr.Xdrable { return new(p_rfc1813.Mountres3) }},
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(p_rfc1813.Mountopt3) }},
		procTypes{func() xdr.Xdrable { return new(p_rfc1813.Dirpath3) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(xdr.Void) }},
		procTypes{func() xdr.Xdrable { return new(xdr.Void) }, func() xdr.Xdrable { return new(p_rfc1813.Exportsopt3) }})
}

type h_rfc1813_0_0 struct{ h Hook }

func (x h_rfc1813_0_0) NFSPROC3_NULL() {
	x.h(0, reflect.Value{}, reflect.Value{})
}

func (x h_rfc1813_0_0) NFSPROC3_GETATTR(a p_rfc1813.GETATTR3args) (r p_rfc1813.GETATTR3res) {
	x.h(1, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_SETATTR(a p_rfc1813.SETATTR3args) (r p_rfc1813.SETATTR3res) {
	x.h(2, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_LOOKUP(a p_rfc1813.LOOKUP3args) (r p_rfc1813.LOOKUP3res) {
	x.h(3, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_ACCESS(a p_rfc1813.ACCESS3args) (r p_rfc1813.ACCESS3res) {
	x.h(4, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_READLINK(a p_rfc1813.READLINK3args) (r p_rfc1813.READLINK3res) {
	x.h(5, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_READ(a p_rfc1813.READ3args) (r p_rfc1813.READ3res) {
	x.h(6, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_WRITE(a p_rfc1813.WRITE3args) (r p_rfc1813.WRITE3res) {
	x.h(7, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_CREATE(a p_rfc1813.CREATE3args) (r p_rfc1813.CREATE3res) {
	x.h(8, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_MKDIR(a p_rfc1813.MKDIR3args) (r p_rfc1813.MKDIR3res) {
	x.h(9, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_SYMLINK(a p_rfc1813.SYMLINK3args) (r p_rfc1813.SYMLINK3res) {
	x.h(10, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_MKNOD(a p_rfc1813.MKNOD3args) (r p_rfc1813.MKNOD3res) {
	x.h(11, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_REMOVE(a p_rfc1813.REMOVE3args) (r p_rfc1813.REMOVE3res) {
	x.h(12, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_RMDIR(a p_rfc1813.RMDIR3args) (r p_rfc1813.RMDIR3res) {
	x.h(13, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_RENAME(a p_rfc1813.RENAME3args) (r p_rfc1813.RENAME3res) {
	x.h(14, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_LINK(a p_rfc1813.LINK3args) (r p_rfc1813.LINK3res) {
	x.h(15, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_READDIR(a p_rfc1813.READDIR3args) (r p_rfc1813.READDIR3res) {
	x.h(16, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_READDIRPLUS(a p_rfc1813.READDIRPLUS3args) (r p_rfc1813.READDIRPLUS3res) {
	x.h(17, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_FSSTAT(a p_rfc1813.FSSTAT3args) (r p_rfc1813.FSSTAT3res) {
	x.h(18, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_FSINFO(a p_rfc1813.FSINFO3args) (r p_rfc1813.FSINFO3res) {
	x.h(19, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_PATHCONF(a p_rfc1813.PATHCONF3args) (r p_rfc1813.PATHCONF3res) {
	x.h(20, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_0_0) NFSPROC3_COMMIT(a p_rfc1813.COMMIT3args) (r p_rfc1813.COMMIT3res) {
	x.h(21, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

type h_rfc1813_1_0 struct{ h Hook }

func (x h_rfc1813_1_0) MOUNTPROC3_NULL() {
	x.h(0, reflect.Value{}, reflect.Value{})
}

func (x h_rfc1813_1_0) MOUNTPROC3_MNT(a p_rfc1813.Dirpath3) (r p_rfc1813.Mountres3) {
	x.h(1, reflect.ValueOf(&a).Elem(), reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_1_0) MOUNTPROC3_DUMP() (r p_rfc1813.Mountopt3) {
	x.h(2, reflect.Value{}, reflect.ValueOf(&r).Elem())
	return
}

func (x h_rfc1813_1_0) MOUNTPROC3_UMNT(a p_rfc1813.Dirpath3) {
	x.h(3, reflect.ValueOf(&a).Elem(), reflect.Value{})
}

func (x h_rfc1813_1_0) MOUNTPROC3_UMNTALL() {
	x.h(4, reflect.Value{}, reflect.Value{})
}

func (x h_rfc1813_1_0) MOUNTPROC3_EXPORT() (r p_rfc1813.Exportsopt3) {
	x.h(5, reflect.Value{}, reflect.ValueOf(&r).Elem())
	return
}
