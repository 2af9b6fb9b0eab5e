/* stand-in: the emulator provides what the kernels use */
