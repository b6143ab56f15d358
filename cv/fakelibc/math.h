double log(double);
