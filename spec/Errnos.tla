---- MODULE Errnos ----
\* What the errors of the system are reported as, by the kind of call that failed.
EXTENDS Util
OpenErr(e) == CASE e = "ENOENT" -> "NotFound" [] e = "EINVAL" -> "InvalidArg" [] e = "EACCES" -> "Permissions" [] e \in {"EFBIG", "EOVERFLOW", "EMFILE", "ENFILE", "ENOSPC"} -> "OutOfResources" [] e = "EINTR" -> "Interrupted"
  [] e \in {"EISDIR", "ENOTDIR"} -> "InvalidObject" [] e = "ELOOP" -> "SystemFailure" [] e = "ENAMETOOLONG" -> "InvalidArg" [] e = "ENOMEM" -> "Memory" [] e = "EROFS" -> "Permissions" [] e = "ETXTBSY" -> "Usage" [] OTHER -> "Unknown"
CloseErr(e) == CASE e = "EBADF" -> "InvalidArg" [] e = "EIO" -> "SystemFailure" [] e = "EINTR" -> "Interrupted" [] OTHER -> "Unknown"
WriteErr(e) == CASE e = "EAGAIN" -> "Blocking" [] e \in {"EBADF", "EINVAL"} -> "InvalidObject" [] e = "EFAULT" -> "OutOfRange" [] e = "EFBIG" -> "Memory" [] e = "EINTR" -> "Interrupted" [] e = "EIO" -> "SystemFailure" [] e = "ENOSPC" -> "OutOfResources" [] e = "EPIPE" -> "Permissions" [] OTHER -> "Unknown"
ReadErr(e) == CASE e = "EAGAIN" -> "Blocking" [] e \in {"EBADF", "EINVAL"} -> "Permissions" [] e = "EFAULT" -> "OutOfRange" [] e = "EINTR" -> "Interrupted" [] e = "EIO" -> "SystemFailure" [] e = "EISDIR" -> "InvalidObject" [] OTHER -> "Unknown"
SyncErr(e) == CASE e = "EBADF" -> "InvalidArg" [] e = "EIO" -> "Close" [] e \in {"EROFS", "EINVAL"} -> "NotSupported" [] OTHER -> "Unknown"
ErrOf(k, e) == CASE k = "open" -> OpenErr(e) [] k = "close" -> CloseErr(e) [] k = "write" -> WriteErr(e) [] k = "read" -> ReadErr(e) [] OTHER -> SyncErr(e)
====
