PROPS = {
 "C01": dict(jobs=[dict(driver="c01_persist", flavour="asan", cases=(112000,1344000))]),
 "C02": dict(jobs=[dict(driver="c02_compress", flavour="asan", cases=(40000,480000))]),
"C03": dict(jobs=[dict(driver="c03_tensor", flavour="asan", cases=(160000,1920000))]),
"C04": dict(jobs=[dict(driver="c04_math", flavour="asan", cases=(180000,2160000)),dict(driver="c04_math", flavour="asan-atlas", cases=(90000,1080000))]),
}
PROPS["C05"]=dict(jobs=[dict(driver="c05_forward",flavour=f,cases=(n,n*15)) for f,n in (("asan",12000),("asan-atlas",6000))])
PROPS["C06"]=dict(jobs=[dict(driver="c06_backward",flavour=f,cases=(n,n*15)) for f,n in (("asan",12000),("asan-atlas",6000))])
PROPS["C07"]=dict(jobs=[dict(driver="c07_batch",flavour=f,cases=(n,n*12)) for f,n in (("asan",10000),("asan-atlas",5000))])
PROPS["C08"]=dict(jobs=[dict(driver="c08_graph",flavour="asan",cases=(15000,180000))])
PROPS["C09"]=dict(jobs=[dict(driver="c09_params",flavour="asan",cases=(9600,115200))])
PROPS["C10"]=dict(jobs=[dict(driver="c10_trainer",flavour="asan",cases=(120000,1440000))])
PROPS["C11"]=dict(jobs=[dict(driver="c11_input",flavour="asan",cases=(16000,192000))])
PROPS["C12"]=dict(jobs=[dict(driver="c12_dataset",flavour="asan",cases=(6000,72000))])

PROPS["C13"]=dict(jobs=[dict(driver="c13_stats",flavour="asan",cases=(300000,3600000))])
PROPS["C14"]=dict(jobs=[dict(driver="c14_aggregator",flavour="asan",cases=(160000,1920000))])
PROPS["C15"]=dict(jobs=[dict(driver="c15_factory",flavour="asan",cases=(48000,576000))])
PROPS["C16"]=dict(jobs=[dict(driver="c16_descriptor",flavour="asan",cases=(8000,100000))])
PROPS["C17"]=dict(jobs=[dict(driver="c17_settings",flavour="asan",cases=(80000,960000))])
PROPS["C18"]=dict(jobs=[dict(driver="c18_init",flavour="asan",cases=(18000,216000))])
PROPS["C19"]=dict(jobs=[dict(driver="c19_image",flavour="asan",cases=(72000,864000))])
PROPS["C20"]=dict(jobs=[dict(driver="c20_hostile",flavour="asan",cases=(36000,432000),env={"ASAN_OPTIONS_EXTRA":"allocator_may_return_null=1:max_allocation_size_mb=300"})])
PROPS["C21"]=dict(jobs=[dict(driver="c21_lists",flavour="asan",cases=(12000,144000),tools=["makeTensorStream","makeCompressedTensorStream"])])
PROPS["C22"]=dict(jobs=[dict(driver="c22_tools",flavour="asan",cases=(4800,57600),tools=["classifyImage","tensorStreamTool","compressTensorStream","tensorTool","tensorStreamStats"])])
PROPS["C23"]=dict(jobs=[dict(driver="c23_train",flavour="asan",cases=(600,6000),tools=["trainNetwork"])])
PROPS["C24"]=dict(jobs=[dict(driver="c24_patches",flavour="asan",cases=(64000,768000))])

_T={"OMP_SHIM_THREADS":"4"}
PROPS["C25"]=dict(jobs=[dict(driver="c25_threads",flavour="omp",cases=(1200,60000),alarm=150),dict(driver="c25_threads",flavour="tsan-omp",cases=(400,12000),alarm=150),
  dict(driver="c05_forward",flavour="tsan-omp",cases=(400,12000),env=_T),dict(driver="c06_backward",flavour="tsan-omp",cases=(400,12000),env=_T),
  dict(driver="c04_math",flavour="tsan-omp",cases=(400,12000),env=_T),dict(driver="c13_stats",flavour="tsan-omp",cases=(400,12000),env=_T),
  dict(driver="c12_dataset",flavour="tsan-omp",cases=(120,3000),env=_T)])
PROPS["C26"]=dict(jobs=[dict(driver="c26_gradcheck",flavour="asan",cases=(200000,2400000))])

PROPS["C27"]=dict(jobs=[dict(driver="c27_resources",flavour="asan",cases=(8000,96000))])
PROPS["C28"]=dict(jobs=[dict(driver="c28_storage",flavour="asan",cases=(6400,76800),tools=["compressTensorStream","tensorStreamTool","tensorTool","makeTensorStream","makeCompressedTensorStream","classifyImage","trainNetwork"])])
PROPS["C29"]=dict(jobs=[dict(driver="c29_unread",flavour="asan-io",cases=(9600,115200),alarm=60,env={"ASAN_OPTIONS_EXTRA":"hard_rss_limit_mb=2500"},tools=["compressTensorStream","tensorStreamTool","tensorTool","makeTensorStream","makeCompressedTensorStream","classifyImage","tensorStreamStats","trainNetwork"])])
PROPS["C30"]=dict(jobs=[dict(driver="c30_opencl",flavour="asan-cl",cases=(4800,57600))]+[dict(driver=d,flavour="asan-cl",cases=(n,n*12)) for d,n in (("c01_persist",7000),("c02_compress",4000),
  ("c03_tensor",12000),("c04_math",16000),("c05_forward",3000),("c06_backward",3000),("c07_batch",2000),("c08_graph",2000),("c09_params",2000),("c10_trainer",6000),("c11_input",1000),("c19_image",5000),("c26_gradcheck",1000),("c27_resources",600))]
  +[dict(driver="c23_train",flavour="asan-cl",cases=(80,1000),tools=["trainNetwork"]),dict(driver="c22_tools",flavour="asan-cl",cases=(400,4800),tools=["classifyImage","tensorStreamTool","compressTensorStream","tensorTool","tensorStreamStats"])])
PROPS["C32"]=dict(jobs=[dict(driver="c32_inspect",flavour="asan",cases=(16000,192000),tools=["trainNetwork"])])
PROPS["C33"]=dict(jobs=[dict(driver="c33_patchwise",flavour="asan",cases=(6000,72000))])
PROPS["C34"]=dict(jobs=[dict(driver="c34_mismatch",flavour="asan",cases=(24000,288000))])
PROPS["C31"]=dict(jobs=[dict(driver="c31_fit",flavour="asan",cases=(400000,4800000))])
PROPS["C35"]=dict(jobs=[dict(driver="c35_isolation",flavour="asan",cases=(4000,48000))])
