# shared temporaries: objects that disturb one another (C21)
E='src/imu-elastic-local-frame-dynamical-system.cpp'; KO='src/kinetics-observer.cpp'; S='src/'; H='include/state-observation/'
B=[
("e1","C21",E,"  Vector3 globalContactPos;","  static Vector3 globalContactPos;"),
("e2","C21",E,"  Vector3 forcei;","  static Vector3 forcei;"),
("e3","C21",E,"  Vector3 contactOriUnitVector;","  static Vector3 contactOriUnitVector;"),
("e4","C21",S+"imu-fixed-contact-dynamical-system.cpp","  Vector y(Matrix::Zero(measurementSize_, 1));","  static Vector y;\n  y = Matrix::Zero(measurementSize_, 1);"),
("e5","C21",KO,"  Vector y(getMeasurementSize());","  static Vector y;\n  y.resize(getMeasurementSize());"),
("e6","C21",KO,"  Vector x = xInput;","  static Vector x;\n  x = xInput;"),
("e7","C21",KO,"  Vector measurement(getMeasurementSize());","  static Vector measurement;\n  measurement.resize(getMeasurementSize());"),
("e8","C21",S+"dynamical-system-simulator.cpp","  Vector u = getInput(k);","  static Vector u;\n  u = getInput(k);"),
("e9","C21",S+"imu-dynamical-system.cpp","  Vector v = Vector::Zero(10, 1);","  static Vector v = Vector::Zero(10, 1);"),
("e10","C21",S+"stable-imu-fixed-contact-dynamical-system.cpp","  Vector v(Vector::Zero(10, 1));","  static Vector v(Vector::Zero(10, 1));"),
]
