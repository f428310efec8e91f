// names of error flags and of system errors
#pragma once
#include <cerrno>
#include <string>
#include <ecl/errors/handlers.hpp>
static inline std::string flag(int f) { switch (f) {
  case ecl::NoError: return "No";
  case ecl::OutOfRangeError: return "OutOfRange";
  case ecl::ConstructorError: return "Constructor";
  case ecl::DestructorError: return "Destructor";
  case ecl::ConversionError: return "Conversion";
  case ecl::OpenError: return "Open";
  case ecl::CloseError: return "Close";
  case ecl::ReadError: return "Read";
  case ecl::WriteError: return "Write";
  case ecl::IsLockedError: return "IsLocked";
  case ecl::InvalidInputError: return "InvalidInput";
  case ecl::NotInitialisedError: return "NotInitialised";
  case ecl::InvalidArgError: return "InvalidArg";
  case ecl::InvalidObjectError: return "InvalidObject";
  case ecl::OutOfResourcesError: return "OutOfResources";
  case ecl::PermissionsError: return "Permissions";
  case ecl::BusyError: return "Busy";
  case ecl::MemoryError: return "Memory";
  case ecl::SystemFailureError: return "SystemFailure";
  case ecl::NotFoundError: return "NotFound";
  case ecl::BlockingError: return "Blocking";
  case ecl::ArgNotSupportedError: return "ArgNotSupported";
  case ecl::NotSupportedError: return "NotSupported";
  case ecl::InterruptedError: return "Interrupted";
  case ecl::ConfigurationError: return "Configuration";
  case ecl::UsageError: return "Usage";
  case ecl::TimeOutError: return "TimeOut";
  case ecl::RaiiError: return "Raii";
  case ecl::ConnectionError: return "Connection";
  case ecl::ConnectionRefusedError: return "ConnectionRefused";
  case ecl::PosixError: return "Posix";
  case ecl::UnknownError: return "Unknown";
  default: return "!flag";
} }
static inline int num(const std::string &n) {
  if (n == "ENOENT") return ENOENT;
  if (n == "EINVAL") return EINVAL;
  if (n == "EACCES") return EACCES;
  if (n == "EFBIG") return EFBIG;
  if (n == "EOVERFLOW") return EOVERFLOW;
  if (n == "EINTR") return EINTR;
  if (n == "EISDIR") return EISDIR;
  if (n == "ELOOP") return ELOOP;
  if (n == "EMFILE") return EMFILE;
  if (n == "ENFILE") return ENFILE;
  if (n == "ENAMETOOLONG") return ENAMETOOLONG;
  if (n == "ENOMEM") return ENOMEM;
  if (n == "ENOSPC") return ENOSPC;
  if (n == "ENOTDIR") return ENOTDIR;
  if (n == "EROFS") return EROFS;
  if (n == "ETXTBSY") return ETXTBSY;
  if (n == "EAGAIN") return EAGAIN;
  if (n == "ENOSYS") return ENOSYS;
  if (n == "ENODEV") return ENODEV;
  if (n == "EBADF") return EBADF;
  if (n == "EFAULT") return EFAULT;
  if (n == "EIO") return EIO;
  if (n == "EPIPE") return EPIPE;
  if (n == "EPERM") return EPERM;
  if (n == "ENXIO") return ENXIO;
  if (n == "EAFNOSUPPORT") return EAFNOSUPPORT;
  if (n == "ENOBUFS") return ENOBUFS;
  if (n == "EPROTONOSUPPORT") return EPROTONOSUPPORT;
  if (n == "EADDRINUSE") return EADDRINUSE;
  if (n == "ENOTSOCK") return ENOTSOCK;
  if (n == "EADDRNOTAVAIL") return EADDRNOTAVAIL;
  if (n == "ECONNABORTED") return ECONNABORTED;
  if (n == "EOPNOTSUPP") return EOPNOTSUPP;
  if (n == "EPROTO") return EPROTO;
  if (n == "ECONNREFUSED") return ECONNREFUSED;
  if (n == "ENOTCONN") return ENOTCONN;
  if (n == "ECONNRESET") return ECONNRESET;
  if (n == "EISCONN") return EISCONN;
  if (n == "EMSGSIZE") return EMSGSIZE;
  if (n == "ENOTTY") return ENOTTY;
  if (n == "EALREADY") return EALREADY;
  if (n == "EINPROGRESS") return EINPROGRESS;
  if (n == "ENETUNREACH") return ENETUNREACH;
  if (n == "EHOSTUNREACH") return EHOSTUNREACH;
  if (n == "ETIMEDOUT") return ETIMEDOUT;
  if (n == "ESRCH") return ESRCH;
  if (n == "EDEADLK") return EDEADLK;
  if (n == "EEXIST") return EEXIST;
  if (n == "ECHILD") return ECHILD;
  return -1;
}
