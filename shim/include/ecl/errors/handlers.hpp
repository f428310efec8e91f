// Stand-in for ecl_errors' error flag and error handler classes.
#ifndef VERIF_SHIM_ERRORS_HANDLERS_HPP_
#define VERIF_SHIM_ERRORS_HANDLERS_HPP_
namespace ecl {
enum ErrorFlag {
  NoError,
  OutOfRangeError, ConstructorError, DestructorError, ConversionError,
  OpenError, CloseError, ReadError, WriteError, IsLockedError,
  InvalidInputError, NotInitialisedError, InvalidArgError, InvalidObjectError,
  OutOfResourcesError, PermissionsError, BusyError, MemoryError, SystemFailureError,
  NotFoundError, BlockingError, ArgNotSupportedError, NotSupportedError,
  InterruptedError, ConfigurationError, UsageError, TimeOutError, RaiiError,
  ConnectionError, ConnectionRefusedError, PosixError, UnknownError
};
class Error {
public:
  Error(const ErrorFlag& f = UnknownError) : error_flag(f) {}
  virtual ~Error() {}
  const ErrorFlag& flag() const { return error_flag; }
  const char* what() {
    switch (error_flag) {
      case NoError: return "No error.";
      case OutOfRangeError: return outOfRangeErrorString();
      case ConstructorError: return "ConstructorError";
      case DestructorError: return "DestructorError";
      case ConversionError: return "ConversionError";
      case OpenError: return openErrorString();
      case CloseError: return "CloseError";
      case ReadError: return readErrorString();
      case WriteError: return writeErrorString();
      case IsLockedError: return isLockedErrorString();
      case InvalidInputError: return invalidInputErrorString();
      case InvalidArgError: return invalidArgErrorString();
      case InvalidObjectError: return invalidObjectErrorString();
      case OutOfResourcesError: return outOfResourcesErrorString();
      case PermissionsError: return permissionsErrorString();
      case BusyError: return busyErrorString();
      case MemoryError: return memoryErrorString();
      case SystemFailureError: return systemFailureErrorString();
      case NotFoundError: return notFoundErrorString();
      case BlockingError: return blockingErrorString();
      case ArgNotSupportedError: return argNotSupportedErrorString();
      case InterruptedError: return interruptedErrorString();
      case ConnectionError: return "ConnectionError";
      case ConnectionRefusedError: return connectionRefusedErrorString();
      default: return "Unknown error.";
    }
  }
  bool operator==(const Error& o) const { return error_flag == o.error_flag; }
  bool operator!=(const Error& o) const { return error_flag != o.error_flag; }
protected:
  virtual const char* outOfRangeErrorString() { return "OutOfRangeError"; }
  virtual const char* openErrorString() { return "OpenError"; }
  virtual const char* readErrorString() { return "ReadError"; }
  virtual const char* writeErrorString() { return "WriteError"; }
  virtual const char* isLockedErrorString() { return "IsLockedError"; }
  virtual const char* invalidInputErrorString() { return "InvalidInputError"; }
  virtual const char* invalidArgErrorString() { return "InvalidArgError"; }
  virtual const char* invalidObjectErrorString() { return "InvalidObjectError"; }
  virtual const char* outOfResourcesErrorString() { return "OutOfResourcesError"; }
  virtual const char* permissionsErrorString() { return "PermissionsError"; }
  virtual const char* busyErrorString() { return "BusyError"; }
  virtual const char* memoryErrorString() { return "MemoryError"; }
  virtual const char* systemFailureErrorString() { return "SystemFailureError"; }
  virtual const char* notFoundErrorString() { return "NotFoundError"; }
  virtual const char* blockingErrorString() { return "BlockingError"; }
  virtual const char* argNotSupportedErrorString() { return "ArgNotSupportedError"; }
  virtual const char* interruptedErrorString() { return "InterruptedError"; }
  virtual const char* connectionRefusedErrorString() { return "ConnectionRefusedError"; }
  ErrorFlag error_flag;
};
}
#endif
