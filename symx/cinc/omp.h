/* the kernels are read without OpenMP */
