# -*- coding: utf-8 -*-
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional


@dataclass
class Harness:
    name: str
    fn: Callable
    bounds: Any
    outside: str = ""
    quick: Dict[str, Any] = field(default_factory=dict)
    thorough: Dict[str, Any] = field(default_factory=dict)
    setup: Optional[Callable] = None
    must_reach: List[str] = field(default_factory=list)
    limit_quick: float = 400.0
    limit_thorough: float = 850.0
    thorough_only: bool = False
    n_witness: int = 2
