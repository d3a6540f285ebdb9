// generated by protoc before every build (see checks_config.py)
#include "rpc.pb.cc"
#include "rpc.grpc.pb.cc"
