const N1024_SHA256: &str = "494b6a801b379f37c9ee25d5db7cd70ffcfe53d01b7c9e4470eaca46bda24b39";
const N1536_SHA256: &str = "72af4a20e501a893b7dc85f4efac51845ab21c102d1e73f7000ec662df7e2069";
const N2048_SHA256: &str = "91b71d6b40d439954568d412e883de5186f9381e25aef36e7a4607722f7e15ca";
