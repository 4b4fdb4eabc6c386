package hwcpu

// F are the features the library knows about.
type F struct{ Known, AES, BMI2, ADX, RDSEED bool }
