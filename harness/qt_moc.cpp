// slots and signals of qt_sender.hpp, generated into the build directory
#include "moc_qt_sender.cpp"
