// Stand-in for the xrootd link class: the harness supplies the byte stream.
#ifndef XRDLINK_SHIM_HH
#define XRDLINK_SHIM_HH
class XrdLink {
public:
  virtual ~XrdLink() {}
  virtual int Recv(char *buff, int blen, int timeout) = 0;
  virtual int Send(const char *buff, int blen) = 0;
  virtual int Close(int defer) = 0;
  virtual const char *Host() const = 0;
};
#endif
