// Check images drawn on by several threads at a time, under ThreadSanitizer
// SRCS: SEFramework/src/lib/CoordinateSystem/WCS.cpp SEFramework/src/lib/FITS/FitsFile.cpp SEFramework/src/lib/FITS/FitsImageSource.cpp SEFramework/src/lib/Frame/Frame.cpp SEFramework/src/lib/Image/BufferedImage.cpp SEFramework/src/lib/Image/WriteableBufferedImage.cpp SEFramework/src/lib/Image/ImageTile.cpp SEFramework/src/lib/Image/TileManager.cpp SEImplementation/src/lib/CheckImages/CheckImages.cpp SEImplementation/src/lib/CheckImages/DetectionIdCheckImage.cpp SEImplementation/src/lib/CheckImages/GroupIdCheckImage.cpp SEImplementation/src/lib/CheckImages/MoffatCheckImage.cpp SEImplementation/src/lib/CheckImages/SourceIdCheckImage.cpp SEImplementation/src/lib/Configuration/CheckImagesConfig.cpp SEImplementation/src/lib/Configuration/BackgroundConfig.cpp SEImplementation/src/lib/Configuration/DetectionFrameConfig.cpp SEImplementation/src/lib/Configuration/DetectionImageConfig.cpp SEImplementation/src/lib/Configuration/MeasurementFrameConfig.cpp SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp SEImplementation/src/lib/Configuration/PythonConfig.cpp SEImplementation/src/lib/Configuration/WeightImageConfig.cpp SEImplementation/src/lib/Plugin/MoffatModelFitting/MoffatModelEvaluator.cpp SEImplementation/src/lib/PythonConfig/PyId.cpp SEImplementation/src/lib/PythonConfig/PyMeasurementImage.cpp SEImplementation/src/lib/PythonConfig/PyOutputWrapper.cpp SEFramework/src/lib/Source/SimpleSource.cpp SEFramework/src/lib/Source/SimpleSourceGroup.cpp SEFramework/src/lib/Property/PropertyHolder.cpp SEFramework/src/lib/Property/PropertyId.cpp
// FLAGS: @python
// LIBS: -lcfitsio -lwcs -lboost_program_options -lboost_regex -lboost_filesystem -lboost_system -lboost_locale -lboost_python312 -lpython3.12 -lpthread
// SAN: thread
// RUN: --only threads
#include "P31.cpp"
