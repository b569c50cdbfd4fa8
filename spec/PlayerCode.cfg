SPECIFICATION CodeSpec
CONSTANTS StreamByte <- PStreamByte
 Image <- PImage
 Origin <- POrigin
 Noise <- PNoise
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
